"""C10: copies are independent and soft updates are exact exponential smoothing."""
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.models import Act, DistModel, Obs, PiModel, QModel, SAModel, VModel, obs_outputs


def np64(tree):
    return jax.tree_util.tree_map(lambda x: onp.asarray(x, 'float64'), tree)


def make(rng, obs, act, kind):
    st = bool(rng.random() < 0.6)
    if kind == 'v':
        return VModel(rng, obs, stateful=st)
    if kind == 'q':
        return QModel(rng, obs, act, stateful=st)
    if kind == 'pi':
        return PiModel(rng, obs, act, stateful=st)
    if kind == 'dq':
        return DistModel(rng, obs, act, stateful=st)
    shapes, build = obs_outputs(obs, False)
    return SAModel(rng, coax.TransitionModel, obs, act, shapes, build, stateful=st)


def check_output(m, kind, model, obs, act, S, A):
    """the function computes with its *own current* parameters and state"""
    s = jax.tree_util.tree_map(lambda x: x[0], S)
    if obs.kind == 'disc':
        s = int(s)
    f = model.f
    if kind == 'v':
        m.close(f(s), model.raw(S)[0], 'output-follows-own-parameters', rtol=1e-3, atol=1e-3)
    elif kind == 'q':
        m.close(f(s, A[0]), model.raw1(S, act.feat(A))[0], 'output-follows-own-parameters', rtol=1e-3, atol=1e-3)
    elif kind == 'pi':
        want = model.dist(S)
        for k, v in f.dist_params(s).items():
            m.close(v, want[k][0], 'output-follows-own-parameters', rtol=1e-3, atol=1e-3)
        if act.kind == 'box':        # the memoised mode function too
            raw = act.feat(onp.asarray(f.mode(s))[None])[0]
            ok = onp.abs(want['mu'][0]) < 4
            m.true(onp.all(onp.abs(raw - want['mu'][0])[ok] < 0.02), 'mode-follows-own-parameters', raw, want['mu'][0])
    elif kind == 'dq':
        m.close(f.mean(s, A[0]), model.mean(model.d1(S, act.feat(A)))[0], 'output-follows-own-parameters',
                rtol=2e-3, atol=2e-3)
    m.ev('outputs')


@scenario(quick=60, thorough=1800, floor={'soft-updates': 150, 'copies': 100, 'outputs': 300, 'refused': 60})
def history(m):
    rng = m.rng
    kind = pick(rng, ['v', 'q', 'pi', 'dq', 'p'])
    obs, act = Obs(rng, img=True, rich=kind != 'p'), Act(rng, rich=True)
    model = make(rng, obs, act, kind)
    pool = [(model, np64(model.f.params), np64(model.f.function_state))]
    if rng.random() < 0.7:           # a second one from the start, with other parameters and state
        twin = object.__new__(type(model))
        twin.__dict__.update(model.__dict__)
        twin.f = model.f.copy(deep=bool(rng.random() < 0.5))
        twin.randomize(rng)
        pool.append((twin, np64(twin.f.params), np64(twin.f.function_state)))

    def everybody(rule):
        for mod, P, S in pool:
            m.tree_close(mod.f.params, P, rule + ':params', rtol=1e-5, atol=1e-6)
            m.tree_close(mod.f.function_state, S, rule + ':state', rtol=1e-5, atol=1e-6)

    S, A = obs.sample(rng, 1), act.sample(rng, 1)
    for _ in range(14):
        i = int(rng.integers(len(pool)))
        mod, P, St = pool[i]
        op = pick(rng, ['copy', 'deep', 'soft', 'soft', 'set', 'call', 'bad'])
        m.log(op, i, len(pool))
        if op in ('copy', 'deep') and len(pool) < 5:
            new = object.__new__(type(mod))
            new.__dict__.update(mod.__dict__)
            new.f = mod.f.copy(deep=op == 'deep')
            m.true(new.f is not mod.f and type(new.f) is type(mod.f), 'copy-is-a-new-function')
            pool.append((new, P, St))
            m.ev('copies')
        elif op == 'soft':
            j = int(rng.integers(len(pool)))
            tau = float(pick(rng, [0.0, 1.0, 1.0, 1.0, 0.5, 1e-4, 0.001, 0.01, 0.99, 0.995, 0.999, 0.9995, rng.random()]))
            other, PO, SO = pool[j]
            mod.f.soft_update(other.f, tau)
            mix = lambda a, b: (1 - tau) * a + tau * b
            pool[i] = (mod, jax.tree_util.tree_map(mix, P, PO), jax.tree_util.tree_map(mix, St, SO))
            if tau == 1.0:
                m.tree_close(mod.f.params, other.f.params, 'hard-update', rtol=1e-5, atol=1e-6)
                m.tree_close(mod.f.function_state, other.f.function_state, 'hard-update', rtol=1e-5, atol=1e-6)
                m.ev('hard-updates')
            m.ev('soft-updates')
        elif op == 'set':
            mod.randomize(rng)
            pool[i] = (mod, np64(mod.f.params), np64(mod.f.function_state))
        elif op == 'bad':
            alien = VModel(rng, obs) if kind != 'v' else QModel(rng, obs, act)
            m.raises(TypeError, lambda: mod.f.soft_update(alien.f, 0.5), 'soft-update-from-another-type-refused')
            m.raises(TypeError, lambda: setattr(mod.f, 'params', {'a': jnp.zeros(2)}), 'alien-params-refused')
            m.raises(TypeError, lambda: setattr(mod.f, 'function_state', {'a': jnp.zeros(2)}),
                     'alien-state-refused')
            m.ev('refused')
        everybody(op)
        check_output(m, kind, mod, obs, act, S, A)
        m.nontrivial(kind, op, i, len(pool), obs.kind, act.kind)
    m.sample(kind=kind, pool=len(pool))


@scenario(quick=20, thorough=400, floor={'tracked': 150})
def target_tracks_main(m):
    """theta_targ after k soft updates is the exponentially weighted sum of the main parameters."""
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, rich=True)
    main = make(rng, obs, act, pick(rng, ['v', 'q', 'pi']))
    targ = main.f.copy()
    tau = float(rng.uniform(0.01, 0.9))
    hist = [np64((main.f.params, main.f.function_state))]
    for _ in range(10):
        main.randomize(rng)
        hist.append(np64((main.f.params, main.f.function_state)))
        targ.soft_update(main.f, tau)
        k = len(hist) - 1
        w = [(1 - tau) ** k] + [tau * (1 - tau) ** (k - j) for j in range(1, k + 1)]
        want = jax.tree_util.tree_map(lambda *x: sum(a * b for a, b in zip(w, x)), *hist)
        m.tree_close((targ.params, targ.function_state), want, 'exponential-smoothing', rtol=1e-4, atol=1e-5)
        m.tree_close((main.f.params, main.f.function_state), hist[-1], 'source-untouched')
        m.ev('tracked')
    m.nontrivial(tau)
    m.sample(tau=tau)
