"""C13: a policy's actions, log-propensities, mode, mean and distribution parameters agree."""
import types

import gymnasium as gym
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.dists import Cat, Comp, Nor, rare_categories
from vmon.gen import pick
from vmon.models import Act, Obs, PiModel, log_softmax, sigmoid

KEY = jax.random.PRNGKey


def one(S, i, obs):
    s = jax.tree_util.tree_map(lambda v: v[i], S)
    return int(s) if obs.kind == 'disc' else s


@scenario(quick=60, thorough=1500, floor={'actions': 2000, 'policy-samples': 40000})
def policy(m):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, rich=True)
    pi = PiModel(rng, obs, act, stateful=rng.random() < 0.5)
    f = pi.f
    for _ in range(2):
        pi.randomize(rng, pick(rng, [0.8, 0.8, 2.0]))
        S = obs.sample(rng, 2)
        d = pi.dist(S)
        for i in range(2):
            s = one(S, i, obs)
            for k, v in f.dist_params(s).items():
                m.close(v, d[k][i], 'dist-params', k, rtol=1e-3, atol=1e-4)
            if act.kind == 'disc':
                lp = log_softmax(d['logits'][i])
                srt = onp.sort(lp)
                if srt[-1] - srt[-2] > 1e-3:
                    m.eq(int(f.mode(s)), int(lp.argmax()), 'mode-is-the-likeliest-action', lp)
                    m.eq(int(f.mean(s)), int(lp.argmax()), 'mean-is-the-mode-for-discrete', lp)
                    m.ev('modes')
            else:
                want = act.low + (act.high - act.low) * sigmoid(d['mu'][i])
                m.close(f.mode(s), want, 'mode', rtol=1e-3, atol=1e-3)
                m.close(f.mean(s), want, 'mean', rtol=1e-3, atol=1e-3)
                m.ev('modes')
            for _ in range(12):
                a, logp = f(s, return_logp=True)
                m.true(act.space.contains(a), 'action-in-the-space', a)
                m.eq(onp.shape(logp), (), 'one-log-propensity')
                if act.kind == 'disc':
                    m.close(logp, lp[a], 'log-propensity-of-the-action-taken', lp, rtol=1e-3, atol=1e-3)
                else:
                    s1 = jax.tree_util.tree_map(lambda v: v[i:i + 1], S)
                    raw = act.feat(onp.asarray(a)[None])
                    if onp.all(onp.abs(raw) < 5):
                        want = pi.logp(s1, raw)[0]
                        sd = onp.exp(onp.clip(d['logvar'][i], -20, 20) / 2).min()
                        m.true(abs(logp - want) <= 5e-2 * (1 + abs(want)) + 0.1 / sd * 0.05,
                               'log-propensity-of-the-action-taken', logp, want)
                m.ev('actions')
            # the distribution of many samples
            N = 1000
            P = f.observation_preprocessor(KEY(0), s)
            P = jax.tree_util.tree_map(lambda v: jnp.repeat(v, N, 0), P)
            X, logP = f.sample_func(f.params, f.function_state, KEY(int(rng.integers(1e9))), P)
            if act.kind == 'disc':
                p = onp.exp(lp)
                c = onp.bincount(onp.asarray(X).argmax(1), minlength=act.n)
                m.true(onp.all(onp.abs(c - N * p) <= 6.5 * onp.sqrt(N * p * (1 - p) + 1)), 'frequencies', c / N, p)
                m.close(logP, lp[onp.asarray(X).argmax(1)], 'log-propensities-of-a-batch', rtol=1e-3, atol=1e-3)
            else:
                sd = onp.exp(onp.clip(d['logvar'][i], -20, 20) / 2)
                z = (onp.asarray(X, 'float64') - d['mu'][i]) / sd
                m.true(onp.all(onp.abs(z.mean(0)) < 6.5 / onp.sqrt(N)), 'sample-mean', z.mean(0))
                m.true(onp.all(onp.abs(z.var(0) - 1) < 6.5 * onp.sqrt(2 / N)), 'sample-variance', z.var(0))
                s1 = jax.tree_util.tree_map(lambda v: onp.repeat(v[i:i + 1], N, 0), S)
                m.close(logP, pi.logp(s1, onp.asarray(X, 'float64')), 'log-propensities-of-a-batch',
                        rtol=5e-3, atol=5e-3)
            m.ev('policy-samples', N)
        m.nontrivial(obs.kind, act.kind, pi.stateful)
    m.sample(obs=obs.kind, act=act.kind)


@scenario(quick=12, thorough=250, floor={'extreme-propensities': 80})
def high_dimensional(m):
    """many action components, tight and wide: log-propensities far from zero on both sides"""
    rng = m.rng
    d = int(rng.integers(6, 33))
    low = rng.uniform(-3, -0.5, d).astype('float32')
    high = rng.uniform(0.5, 3, d).astype('float32')
    e = types.SimpleNamespace(observation_space=gym.spaces.Discrete(3), action_space=gym.spaces.Box(low, high))
    mu = rng.normal(0, 0.7, (3, d)).astype('float32')
    logvar = onp.clip(rng.normal(pick(rng, [-5, -3, 0., 0.8]), 0.3, (3, d)), None, 1.2).astype('float32')

    def func(S, is_training):
        return {'mu': S @ hk.get_parameter('mu', (3, d), init=hk.initializers.Constant(mu)),
                'logvar': S @ hk.get_parameter('lv', (3, d), init=hk.initializers.Constant(logvar))}
    pi = coax.Policy(func, e, random_seed=int(rng.integers(2 ** 31)))
    for _ in range(20):
        s = int(rng.integers(3))
        a, logp = pi(s, return_logp=True)
        m.true(e.action_space.contains(a), 'action-in-the-space', a)
        u = (onp.asarray(a, 'float64') - low) / (high.astype('float64') - low)
        if onp.all((u > 0.003) & (u < 0.997)):
            z = onp.log(u) - onp.log1p(-u)
            want = (-(z - mu[s]) ** 2 / 2 / onp.exp(logvar[s].astype('float64')) - logvar[s] / 2
                    - onp.log(2 * onp.pi) / 2).sum()
            m.close(logp, want, 'log-propensity-of-the-action-taken', rtol=1e-2, atol=0.05)
            m.ev('extreme-propensities', int(abs(want) > 15))
        m.ev('actions')
    m.nontrivial(d, round(float(logvar.mean())))
    m.sample(dim=d, logp=float(logp))


@scenario(quick=10, thorough=250, floor={'rare-sampled': 80000})
def many_actions(m):
    """one likely action and many rare ones"""
    rng = m.rng

    def sample(logits, N):
        n = len(logits)
        e = types.SimpleNamespace(observation_space=gym.spaces.Discrete(2), action_space=gym.spaces.Discrete(n))

        def func(S, is_training):
            x = hk.get_parameter('logits', (n,), init=hk.initializers.Constant(logits))
            return {'logits': jnp.broadcast_to(x, (S.shape[0], n))}
        pi = coax.Policy(func, e, random_seed=int(rng.integers(2 ** 31)))
        want = log_softmax(logits.astype('float64'))
        for _ in range(10):
            a, logp = pi(0, return_logp=True)
            m.close(logp, want[a], 'log-propensity', rtol=1e-3, atol=1e-3)
        X, logP = pi.sample_func(pi.params, pi.function_state, KEY(int(rng.integers(2 ** 31))), jnp.zeros((N, 2)))
        x = onp.asarray(X).argmax(1)
        m.close(logP, want[x], 'log-propensities', rtol=1e-3, atol=1e-3)
        return x
    how = rare_categories(m, rng, sample, 'policy')
    m.nontrivial(*how)
    m.sample(how=how)


@scenario(quick=12, thorough=250, floor={'calls': 2500})
def repeated_calls(m):
    """successive calls draw fresh, independent actions"""
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, 'disc', rich=True)
    pi = PiModel(rng, obs, act)
    s = obs.sample(rng)
    S = jax.tree_util.tree_map(lambda v: onp.asarray(v)[None], s)
    p = onp.exp(log_softmax(pi.dist(S)['logits'][0]))
    N = 250
    xs = onp.array([pi.f(s) for _ in range(N)])
    c = onp.bincount(xs, minlength=act.n)
    m.true(onp.all(onp.abs(c - N * p) <= 6.5 * onp.sqrt(N * p * (1 - p) + 1)), 'frequencies-over-calls', c / N, p)
    same = (xs[1:] == xs[:-1]).mean()
    q = (p ** 2).sum()
    m.true(abs(same - q) <= 6.5 * onp.sqrt((q * (1 - q) + 0.05) / N) * 1.5, 'successive-actions-independent', same, q)
    m.ev('calls', N)
    m.nontrivial(tuple(onp.round(p, 2)))
    m.sample(p=p, counts=c)


@scenario(quick=30, thorough=700, floor={'composite-actions': 200})
def composite_actions(m):
    rng = m.rng
    o = Comp(rng)
    obs = Obs(rng, 'box')
    params = o.params(rng, 1)
    flat, treedef = jax.tree_util.tree_flatten(params)

    def func(S, is_training):
        ps = [hk.get_parameter(f'p{i}', x.shape[1:], init=hk.initializers.Constant(0)) for i, x in enumerate(flat)]
        return jax.tree_util.tree_unflatten(treedef, [
            jnp.broadcast_to(x, (S.shape[0],) + x.shape) for x in ps])

    pi = coax.Policy(func, types.SimpleNamespace(observation_space=obs.space, action_space=o.space),
                     random_seed=int(rng.integers(1e9)))
    names = {f'p{i}': x[0] for i, x in enumerate(flat)}
    pi.params = {k: {n: names[n] for n in v} for k, v in pi.params.items()}
    s = obs.sample(rng)
    got = pi.dist_params(s)
    m.tree_close(tuple(jax.tree_util.tree_leaves(got)), tuple(x[0] for x in flat), 'dist-params', rtol=1e-5)
    for _ in range(8):
        a, logp = pi(s, return_logp=True)
        m.true(o.space.contains(a) or contains(o.space, a), 'action-in-the-space', a, str(o.space))
        X = pi.proba_dist.preprocess_variate(KEY(0), a)
        wide = any(isinstance(leaf, Nor) and onp.abs(onp.asarray(x)).max() > 5 for leaf, x in o.leaves(X))
        if not wide:
            want = o.log_proba(params, X)[0]
            sd = min([1.0] + [float(onp.exp(onp.asarray(p['logvar']).min() / 2)) for leaf, p in o.leaves(params)
                              if isinstance(leaf, Nor)])
            m.true(abs(float(logp) - want) <= 5e-2 * (1 + abs(want)) + 5e-3 / sd ** 2,
                   'log-propensity-of-the-action-taken', logp, want, str(o.space))
            m.ev('composite-actions')
        mode = pi.mode(s)
        M = pi.proba_dist.preprocess_variate(KEY(0), mode)
        for leaf, p, x in o.leaves(params, M):
            if isinstance(leaf, Cat):
                leaf.mode_ok(m, p, x)
            else:
                mu = leaf.mean(p)
                ok = onp.abs(mu) < 5
                m.true(onp.all(onp.abs(onp.asarray(x) - mu)[ok] < 0.05), 'mode', x, mu)
    m.nontrivial(str(o.space))
    m.sample(space=str(o.space), action=a, logp=logp)


def contains(space, a):
    """gym's containment, up to the dtype and container gymnasium is picky about"""
    if isinstance(space, gym.spaces.Tuple):
        return isinstance(a, tuple) and len(a) == len(space.spaces) and \
            all(contains(x, y) for x, y in zip(space.spaces, a))
    if isinstance(space, gym.spaces.Dict):
        return isinstance(a, dict) and set(a) == set(space.spaces) and \
            all(contains(x, a[k]) for k, x in space.spaces.items())
    if isinstance(space, gym.spaces.Box):
        a = onp.asarray(a, 'float64')
        return a.shape == space.shape and bool(onp.all((a >= space.low) & (a <= space.high)))
    return space.contains(a)


@scenario(quick=16, thorough=300, floor={'squashed-actions': 150})
def squashed_policy(m):
    rng = m.rng
    obs, act = Obs(rng, 'box'), Act(rng, 'box')
    d = coax.proba_dists.SquashedNormalDist(act.space)

    def func(S, is_training):
        mu = hk.Linear(act.dim, name='mu')(S)
        return {'mu': mu, 'logvar': hk.Linear(act.dim, name='lv')(S) * 0.2 - 1}

    pi = coax.Policy(func, types.SimpleNamespace(observation_space=obs.space, action_space=act.space),
                     proba_dist=d, random_seed=int(rng.integers(1e9)))
    for _ in range(12):
        s = (obs.sample(rng) * 0.3).astype('float32')
        p = {k: onp.asarray(v, 'float64') for k, v in pi.dist_params(s).items()}
        a, logp = pi(s, return_logp=True)
        m.true(contains(act.space, a), 'action-in-the-space', a)
        half = (act.high.astype('float64') - act.low) / 2
        u = (onp.asarray(a, 'float64') - act.low) / half - 1
        if onp.all(onp.abs(u) < 0.99):
            raw = onp.arctanh(u)
            want = (-0.5 * (onp.log(2 * onp.pi) + p['logvar'] + (raw - p['mu']) ** 2 * onp.exp(-p['logvar']))
                    - onp.log1p(-u ** 2) - onp.log(half)).sum()
            m.true(abs(logp - want) < 2e-2 * (1 + abs(want)), 'log-propensity-of-the-action-taken', logp, want)
        m.close(pi.mode(s), act.low + half * (1 + onp.tanh(p['mu'])), 'mode', rtol=1e-3, atol=1e-3)
        m.ev('squashed-actions')
    m.nontrivial(act.dim, obs.d)
    m.sample(space=str(act.space))
