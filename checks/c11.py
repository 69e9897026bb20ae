"""C11: a function of (s,a) means the same thing whichever way it is modelled and queried."""
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.models import (Act, DistModel, Identity, Obs, QModel, SAModel, Transform, VModel, log_softmax,
                         obs_outputs, sigmoid, tobatch)

KEY = jax.random.PRNGKey


def pre(model, s_batch):
    f = model.f
    n = len(jax.tree_util.tree_leaves(s_batch)[0])
    return jax.tree_util.tree_map(lambda *x: jnp.concatenate(x), *[
        f.observation_preprocessor(KEY(0), jax.tree_util.tree_map(lambda v: v[i], s_batch)) for i in range(n)])


def row(tree, i):
    return jax.tree_util.tree_map(lambda v: v[i], tree)


def single(obs, S, i):
    s = row(S, i)
    return int(s) if obs.kind == 'disc' else s


def state_once(m, model, state, training, rule):
    if not model.stateful:
        return
    n0 = float(jax.tree_util.tree_leaves(model.f.function_state)[0])
    n1 = float(jax.tree_util.tree_leaves(state)[0])
    m.eq(n1, n0 + (1 if training else 0), rule)


def batched_views(m, model, obs, act, got1, got2, want1, want2, S, A):
    """function_type1/2 on a batch, in both modes, against the twin."""
    f = model.f
    P = pre(model, S)
    Af = jnp.asarray(act.feat(A), 'float32')
    for training in (False, True):
        out, st = f.function_type1(f.params, f.function_state, KEY(1), P, Af, training)
        got1(out, want1(training), f'batched-query-with-action training={training}')
        state_once(m, model, st, training, 'state-advanced-once')
        if act.kind == 'disc':
            out, st = f.function_type2(f.params, f.function_state, KEY(1), P, training)
            got2(out, want2(training), f'batched-query-of-all-actions training={training}')
            state_once(m, model, st, training, 'state-advanced-once')
        m.ev('batched')


def one_q(m, cls):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, rich=True)
    tr = Transform(rng) if rng.random() < 0.5 else Identity()
    model = SAModel(rng, cls, obs, act, {'out': ()}, lambda o: o['out'], stateful=rng.random() < 0.5,
                    pre=pick(rng, ['default', 'dist']), value_transform=tr.jax)
    m.log(cls.__name__, obs.kind, act.kind, model.modeltype, tr.kind, model.pre)
    for _ in range(3):
        model.randomize(rng)
        b = int(pick(rng, [1, 3, 5]))
        S, A = obs.sample(rng, b), act.sample(rng, b)
        q1 = tr.f_inv(model.at(S, act.feat(A))['out'])
        for i in range(b):
            s = single(obs, S, i)
            m.close(model.f(s, A[i]), q1[i], 'query-with-action', model.modeltype, rtol=1e-3, atol=1e-4)
            if act.kind == 'disc':
                qs = tr.f_inv(model.all(S)['out'])[i]
                m.close(model.f(s), qs, 'query-of-all-actions', model.modeltype, rtol=1e-3, atol=1e-4)
                m.close(model.f(s)[A[i]], model.f(s, A[i]), 'all-actions-agrees-with-one', rtol=1e-4, atol=1e-5)
            m.ev('queries')

        def cmp(got, want, rule):
            m.close(got, want['out'], rule, model.modeltype, rtol=1e-3, atol=1e-4)
        batched_views(m, model, obs, act, cmp, cmp, lambda t: model.at(S, act.feat(A), t),
                      lambda t: model.all(S, t), S, A)
        m.nontrivial(cls.__name__, obs.kind, act.kind, model.modeltype, tr.kind, model.pre, b)
    if act.kind == 'box':
        m.raises(Exception, lambda: model.f(single(obs, S, 0)), 'all-actions-undefined-for-continuous')
    m.sample(cls=cls.__name__, modeltype=model.modeltype, q=q1)


@scenario(quick=60, thorough=1500, floor={'queries': 300, 'batched': 200})
def q_function(m):
    one_q(m, pick(m.rng, [coax.Q, coax.Q, coax.RewardFunction]))


def clean_box(raw):
    return -3 + 6 * sigmoid(onp.clip(raw, -30, 30))


def check_clean(m, obs, got, out, i, rule):
    """got: a clean observation; out: the twin's raw outputs (batch leading)."""
    if obs.kind in ('box', 'dict'):
        g = got if obs.kind == 'box' else got['a']
        m.close(onp.asarray(g), clean_box(out['mu'][i]), rule, rtol=1e-3, atol=1e-3)
    if obs.kind in ('disc', 'dict'):
        g = got if obs.kind == 'disc' else got['b']
        z = onp.sort(out['logits'][i])
        if z[-1] - z[-2] > 1e-3:
            m.eq(int(g), int(out['logits'][i].argmax()), rule)
    m.true(obs.space.contains(got if obs.kind != 'disc' else int(got)) or obs.kind == 'dict', rule + ':in-space', got)


def check_raw(m, obs, got, out, rule):
    """got: raw outputs of a deterministic model."""
    if obs.kind == 'box':
        m.close(got, out['mu'], rule, rtol=1e-3, atol=1e-4)
    elif obs.kind == 'disc':
        m.close(got, out['logits'], rule, rtol=1e-3, atol=1e-4)
    else:
        m.close(got['a'], out['mu'], rule, rtol=1e-3, atol=1e-4)
        m.close(got['b'], out['logits'], rule, rtol=1e-3, atol=1e-4)


@scenario(quick=50, thorough=1200, floor={'transitions': 200})
def transition_model(m):
    rng = m.rng
    obs, act = Obs(rng, img=True), Act(rng, rich=True)
    shapes, build = obs_outputs(obs, False)
    model = SAModel(rng, coax.TransitionModel, obs, act, shapes, build, stateful=rng.random() < 0.5,
                    pre=pick(rng, ['default', 'dist']))
    for _ in range(2):
        model.randomize(rng)
        b = int(pick(rng, [1, 3, 4]))
        S, A = obs.sample(rng, b), act.sample(rng, b)
        for i in range(b):
            s = single(obs, S, i)
            check_clean(m, obs, model.f(s, A[i]), model.at(S, act.feat(A)), i, 'next-state')
            m.ev('transitions')
            if act.kind == 'disc':
                out, got = model.all(S), model.f(s)
                m.eq(len(got), act.n, 'one-next-state-per-action')
                for a in range(act.n):
                    check_clean(m, obs, got[a], {k: v[:, a] for k, v in out.items()}, i, 'next-state-per-action')

        def cmp(got, want, rule):
            check_raw(m, obs, got, want, rule)
        batched_views(m, model, obs, act, cmp, cmp, lambda t: model.at(S, act.feat(A), t),
                      lambda t: model.all(S, t), S, A)
        m.nontrivial(obs.kind, act.kind, model.modeltype, model.pre, b)
    m.sample(obs=obs.kind, act=act.kind, modeltype=model.modeltype)


def check_dist(m, obs, got, out, rule):
    def cmp(g, names):
        m.eq(set(g), set(names), rule + ':names')
        for k in names:
            m.close(g[k], out[k], rule, k, rtol=1e-3, atol=1e-4)
    if obs.kind == 'box':
        cmp(got, ('mu', 'logvar'))
    elif obs.kind == 'disc':
        cmp(got, ('logits',))
    else:
        cmp(got['a'], ('mu', 'logvar'))
        cmp(got['b'], ('logits',))


def sample_stats(m, obs, X, out, n, rule):
    """X: n samples (leading axis); out: twin dist params of one (s,a)."""
    if obs.kind in ('box', 'dict'):
        x = onp.asarray(X if obs.kind == 'box' else X['a'], 'float64')
        mu, sd = out['mu'], onp.exp(out['logvar'] / 2)
        z = (x.mean(0) - mu) / (sd / onp.sqrt(n))
        m.true(onp.all(onp.abs(z) < 6.5), rule + ':mean', z)
        v = x.var(0) / sd ** 2
        m.true(onp.all(onp.abs(v - 1) < 6.5 * onp.sqrt(2 / n)), rule + ':variance', v)
    if obs.kind in ('disc', 'dict'):
        x = onp.asarray(X if obs.kind == 'disc' else X['b'])
        p = onp.exp(log_softmax(out['logits']))
        c = onp.bincount(x.argmax(1), minlength=obs.n)
        z = (c - n * p) / onp.sqrt(n * p * (1 - p) + 1)
        m.true(onp.all(onp.abs(z) < 6.5), rule + ':frequencies', c / n, p)


@scenario(quick=40, thorough=1000, floor={'samples': 20000, 'stochastic-queries': 60})
def stochastic_transition_model(m):
    rng = m.rng
    obs, act = Obs(rng, img=True), Act(rng, rich=True)
    shapes, build = obs_outputs(obs, True)
    model = SAModel(rng, coax.StochasticTransitionModel, obs, act, shapes, build, stateful=rng.random() < 0.5,
                    pre=pick(rng, ['default', 'dist']))
    f = model.f
    b = int(pick(rng, [1, 3]))
    S, A = obs.sample(rng, b), act.sample(rng, b)
    Af = act.feat(A)
    out1 = model.at(S, Af)
    for i in range(b):
        s = single(obs, S, i)
        check_dist(m, obs, f.dist_params(s, A[i]), row(out1, i), 'dist-params')
        check_clean(m, obs, f.mean(s, A[i]), out1, i, 'mean')
        check_clean(m, obs, f.mode(s, A[i]), out1, i, 'mode')
        x, logp = f(s, A[i], return_logp=True)
        m.true(onp.isfinite(logp), 'logp-finite')
        m.ev('stochastic-queries')
        if act.kind == 'disc':
            out2 = row(model.all(S), i)
            dp, mean, mode, xs = f.dist_params(s), f.mean(s), f.mode(s), f(s)
            m.true(len(dp) == len(mean) == len(mode) == len(xs) == act.n, 'one-per-action')
            for a in range(act.n):
                check_dist(m, obs, dp[a], row(out2, a), 'dist-params-per-action')
                check_clean(m, obs, mean[a], out2, a, 'mean-per-action')
                check_clean(m, obs, mode[a], out2, a, 'mode-per-action')
    P = pre(model, S)
    N = 1500
    rep = jax.tree_util.tree_map(lambda v: jnp.repeat(v, N, axis=0), P)
    X, logP = f.sample_func_type1(f.params, f.function_state, KEY(int(rng.integers(1e6))), rep,
                                  jnp.repeat(jnp.asarray(Af, 'float32'), N, axis=0))
    m.eq(onp.shape(logP), (b * N,), 'one-logp-per-sample')
    for i in range(b):
        sample_stats(m, obs, jax.tree_util.tree_map(lambda v: v[i * N:(i + 1) * N], X), row(out1, i), N, 'samples')
        m.ev('samples', N)
    if act.kind == 'disc':
        out2 = model.all(S)
        X, logP = f.sample_func_type2(f.params, f.function_state, KEY(int(rng.integers(1e6))), rep)
        m.eq(onp.shape(logP), (b * N, act.n), 'one-logp-per-sample-and-action')
        for i in range(b):
            for a in range(act.n):
                Xa = jax.tree_util.tree_map(lambda v: v[i * N:(i + 1) * N, a], X)
                sample_stats(m, obs, Xa, {k: v[i, a] for k, v in out2.items()}, N, 'samples-per-action')
                if obs.kind == 'box':
                    mu, lv = out2['mu'][i, a], out2['logvar'][i, a]
                    want = -0.5 * (onp.log(2 * onp.pi) + lv + (onp.asarray(Xa, 'float64') - mu) ** 2
                                   * onp.exp(-lv)).reshape(N, -1).sum(-1)
                    m.close(logP[i * N:(i + 1) * N, a], want, 'logp-per-action', rtol=5e-3, atol=5e-3)
        # batched mean/mode of all actions
        for name in ('mean', 'mode'):
            Y = getattr(f, name + '_func_type2')(f.params, f.function_state, KEY(0), P)
            if obs.kind == 'box':
                m.close(Y, out2['mu'], name + '-of-all-actions', rtol=1e-3, atol=1e-4)
    def cmp(got, want, rule):
        check_dist(m, obs, got, want, rule)
    batched_views(m, model, obs, act, cmp, cmp, lambda t: model.at(S, Af, t), lambda t: model.all(S, t), S, A)
    m.nontrivial(obs.kind, act.kind, model.modeltype, model.pre, b)
    m.sample(obs=obs.kind, act=act.kind, modeltype=model.modeltype)


def value_stats(m, model, x, d, tr, rule):
    """samples x (already un-transformed) of a value distribution with twin params d"""
    x = onp.asarray(x, 'float64')
    if model.kind == 'quant':
        vals = tr.f_inv(d)
        near = onp.abs(x[:, None] - vals[None]).min(1)
        m.true(onp.all(near <= 1e-3 * (1 + onp.abs(x))), rule + ':a-sample-is-one-of-the-quantiles', x[:5], vals)
    else:
        a = onp.sort(tr.f_inv(model.atoms[[0, -1]]))
        m.true(onp.all((x >= a[0] - 1e-3 * (1 + abs(a[0]))) & (x <= a[1] + 1e-3 * (1 + abs(a[1])))),
               rule + ':within-support', x, a)


def certain(m, f, s, a, d1, d2, atoms, tr, rule):
    """where one atom has (nearly) all of the probability, every way of drawing gives that atom"""
    def atom(d):
        top = onp.sort(d)
        return tr.f_inv(atoms[int(d.argmax())]) if top[-1] - top[-2] > 30 else None
    want = atom(d1)
    if want is not None:
        x, logp = f(s, a, return_logp=True)
        for got in (f(s, a), x, f.mean(s, a), f.mode(s, a)):
            m.close(got, want, rule + ':certain-value', tr.kind, rtol=2e-3, atol=2e-3)
        m.close(logp, 0., rule + ':log-probability-of-the-certain-value', atol=1e-3)
        m.ev('certain')
    if d2 is not None:
        xs, logps = f(s, return_logp=True)
        ys, mean, mode = f(s), f.mean(s), f.mode(s)
        m.true(len(xs) == len(logps) == len(ys) == len(d2), rule + ':one-per-action')
        for k, d in enumerate(d2):
            want = atom(d)
            if want is not None:
                for got in (xs[k], ys[k], mean[k], mode[k]):
                    m.close(got, want, rule + ':certain-value-per-action', tr.kind, rtol=2e-3, atol=2e-3)
                m.close(logps[k], 0., rule + ':log-probability-of-the-certain-value', atol=1e-3)
                m.ev('certain')


@scenario(quick=60, thorough=1400, floor={'value-queries': 200, 'modes-per-action': 20, 'certain': 40})
def stochastic_q(m):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, rich=True)
    tr = Transform(rng) if rng.random() < 0.5 else Identity()
    model = DistModel(rng, obs, act, stateful=rng.random() < 0.5,
                      transform=tr if tr.kind != 'none' else None)
    f = model.f
    b = int(pick(rng, [1, 3]))
    for _ in range(2):
        model.randomize(rng, 1.2)
        S, A = obs.sample(rng, b), act.sample(rng, b)
        d1 = model.d1(S, act.feat(A))
        for i in range(b):
            s = single(obs, S, i)
            m.close(f.dist_params(s, A[i])[model.key], d1[i], 'dist-params', rtol=1e-3, atol=1e-4)
            mean1 = tr.f_inv(model.mean(d1[i]))
            m.close(f.mean(s, A[i]), mean1, 'mean', model.kind, tr.kind, rtol=2e-3, atol=1e-3)
            x = f(s, A[i])
            m.eq(onp.shape(x), (), 'one-value')
            value_stats(m, model, onp.reshape(x, 1), d1[i], tr, 'sample')
            m.ev('value-queries')
            if act.kind == 'disc':
                d2 = model.d2(S)[i]
                dp, mean, xs = f.dist_params(s), f.mean(s), f(s)
                m.true(len(dp) == len(mean) == len(xs) == act.n, 'one-per-action')
                for a in range(act.n):
                    m.close(dp[a][model.key], d2[a], 'dist-params-per-action', rtol=1e-3, atol=1e-4)
                    m.close(mean[a], tr.f_inv(model.mean(d2[a])), 'mean-per-action', model.kind, rtol=2e-3, atol=1e-3)
                    value_stats(m, model, onp.reshape(xs[a], 1), d2[a], tr, 'sample-per-action')
            if model.kind == 'cat':
                p = onp.exp(log_softmax(d1[i]))
                w = onp.exp(log_softmax(log_softmax(d1[i]) / 0.2))
                m.close(f.mode(s, A[i]), tr.f_inv(w @ model.atoms), 'mode', p, rtol=2e-3, atol=1e-3)
                if act.kind == 'disc':
                    for a, x in enumerate(f.mode(s)):
                        w = onp.exp(log_softmax(log_softmax(model.d2(S)[i][a]) / 0.2))
                        m.close(x, tr.f_inv(w @ model.atoms), 'mode-per-action', rtol=2e-3, atol=1e-3)
                    m.ev('modes-per-action')

        def cmp1(got, want, rule):
            m.close(got[model.key], want, rule, rtol=1e-3, atol=1e-4)
        batched_views(m, model, obs, act, cmp1, cmp1, lambda t: model.d1(S, act.feat(A), t),
                      lambda t: model.d2(S, t), S, A)
        m.nontrivial(obs.kind, act.kind, model.modeltype, model.kind, tr.kind, b)
    if model.kind == 'cat':
        model.randomize(rng, 40.)
        for i in range(b):
            certain(m, f, single(obs, S, i), A[i], model.d1(S, act.feat(A))[i],
                    model.d2(S)[i] if act.kind == 'disc' else None, model.atoms, tr, 'q')
    m.sample(obs=obs.kind, act=act.kind, modeltype=model.modeltype, kind=model.kind)


@scenario(quick=30, thorough=600, floor={'reward-queries': 80, 'certain': 30})
def stochastic_reward(m):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, rich=True)
    tr = Transform(rng) if rng.random() < 0.5 else Identity()
    bins = int(rng.integers(2, 9))
    lo, hi = float(rng.uniform(-6, -1)), float(rng.uniform(1, 6))
    model = SAModel(rng, coax.StochasticRewardFunction, obs, act, {'logits': (bins,)},
                    lambda o: {'logits': o['logits']}, stateful=rng.random() < 0.5,
                    pre=pick(rng, ['default', 'dist']), value_range=(lo, hi), num_bins=bins,
                    value_transform=tr.jax)
    flo, fhi = tr.f(lo), tr.f(hi)
    atoms = flo + (onp.arange(bins) + 0.5) * (fhi - flo) / bins
    f = model.f
    S, A = obs.sample(rng, 3), act.sample(rng, 3)
    out = model.at(S, act.feat(A))['logits']
    for i in range(3):
        s = single(obs, S, i)
        want = tr.f_inv(onp.exp(log_softmax(out[i])) @ atoms)
        m.close(f.mean(s, A[i]), want, 'mean-reward', rtol=2e-3, atol=1e-3)
        if act.kind == 'disc':
            o2 = model.all(S)['logits'][i]
            got = f.mean(s)
            for a in range(act.n):
                m.close(got[a], tr.f_inv(onp.exp(log_softmax(o2[a])) @ atoms), 'mean-reward-per-action',
                        rtol=2e-3, atol=1e-3)
        m.ev('reward-queries')
    model.randomize(rng, 40.)
    out = model.at(S, act.feat(A))['logits']
    for i in range(3):
        certain(m, f, single(obs, S, i), A[i], out[i], model.all(S)['logits'][i] if act.kind == 'disc' else None,
                atoms, tr, 'reward')
    m.eq(f.num_bins, bins, 'number-of-bins')
    m.nontrivial(obs.kind, act.kind, model.modeltype, bins, tr.kind)
    m.sample(bins=bins, range=(lo, hi), transform=tr.kind)


@scenario(quick=50, thorough=1200, floor={'successor-queries': 150, 'of-a-stochastic-v': 60})
def successor_state_q(m):
    rng = m.rng
    obs, act = Obs(rng, img=True), Act(rng, rich=True)
    pre_ = pick(rng, ['default', 'dist'])
    sp = bool(rng.random() < 0.5)
    shapes, build = obs_outputs(obs, sp)
    p = SAModel(rng, coax.StochasticTransitionModel if sp else coax.TransitionModel, obs, act, shapes, build,
                pre=pre_, stateful=rng.random() < 0.5)
    trr = Transform(rng) if rng.random() < 0.4 else Identity()
    trv = Transform(rng) if rng.random() < 0.5 else Identity()
    sr = bool(rng.random() < 0.5)
    if sr:
        bins = int(rng.integers(2, 6))
        r = SAModel(rng, coax.StochasticRewardFunction, obs, act, {'logits': (bins,)},
                    lambda o: {'logits': o['logits']}, pre=pre_, value_range=(-3., 2.), num_bins=bins,
                    value_transform=trr.jax)
        lo, hi = trr.f(-3.), trr.f(2.)
        atoms = lo + (onp.arange(bins) + 0.5) * (hi - lo) / bins
        reward = lambda o: trr.f_inv(onp.exp(log_softmax(o['logits'])) @ atoms)
    else:
        r = SAModel(rng, coax.RewardFunction, obs, act, {'out': ()}, lambda o: o['out'], pre=pre_,
                    value_transform=trr.jax)
        reward = lambda o: trr.f_inv(o['out'])
    sv = bool(rng.random() < 0.35)
    kw = dict(transform=trv if trv.kind != 'none' else None, stateful=rng.random() < 0.5)
    v = DistModel(rng, obs, kind='cat', **kw) if sv else VModel(rng, obs, **kw)
    value = (lambda x: trv.f_inv(v.mean(v.twin(x)['logits']))) if sv else (lambda x: trv.f_inv(v.twin(x)['out']))
    gamma = float(rng.uniform(0.2, 1))
    q = coax.SuccessorStateQ(v.f, p.f, r.f, gamma=gamma)

    def feat(o):
        xs = []
        if obs.kind in ('box', 'dict'):
            xs.append(o['mu'].reshape(len(o['mu']), -1))
        if obs.kind in ('disc', 'dict'):
            xs.append(onp.exp(log_softmax(o['logits'])) if sp else o['logits'])
        return onp.concatenate(xs, -1)

    for round_ in range(2):
        for x in (p, r, v):
            x.randomize(rng)
        if round_:
            q.gamma = gamma = float(rng.uniform(0, 0.9))
        b = 3
        S, A = obs.sample(rng, b), act.sample(rng, b)
        for i in range(b):
            s = single(obs, S, i)
            Af = act.feat(A[i:i + 1])
            s1 = jax.tree_util.tree_map(lambda x: x[i:i + 1], S)
            xn = feat(p.at(s1, Af))
            want = reward(r.at(s1, Af)) + gamma * value(xn)
            m.close(q(s, A[i]), want[0], 'q-is-reward-plus-discounted-next-value',
                    (sp, sr, sv, trr.kind, trv.kind), rtol=3e-3, atol=3e-3)
            m.ev('successor-queries')
            m.ev('of-a-stochastic-v', int(sv))
            if act.kind == 'disc':
                got = q(s)
                m.eq(got.shape, (act.n,), 'one-per-action')
                for a in range(act.n):
                    Af = onp.eye(act.n)[a:a + 1]
                    xn = feat(p.at(s1, Af))
                    want = reward(r.at(s1, Af)) + gamma * value(xn)
                    m.close(got[a], want[0], 'q-of-all-actions', (sp, sr, sv), rtol=3e-3, atol=3e-3)
        m.nontrivial(obs.kind, act.kind, sp, sr, sv, p.modeltype, r.modeltype, trr.kind, trv.kind)
    m.sample(stochastic_p=sp, stochastic_r=sr, gamma=gamma)
