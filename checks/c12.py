"""C12: probability distributions satisfy their defining identities."""
import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from coax import proba_dists as pd
from vmon import scenario
from vmon.dists import Cat, Comp, LOG2PI, Nor, f32, rare_categories
from vmon.gen import pick
from vmon.models import Transform, log_softmax

KEY = jax.random.PRNGKey


def key(rng):
    return KEY(int(rng.integers(2 ** 31)))


def tol(x):
    return 2e-3 * (1 + onp.abs(x))


def identities(m, o, d, b=4):
    rng = m.rng
    p, q = o.params(rng, b), o.params(rng, b)
    X = o.variates(rng, b)
    for name, got, want in (
            ('log-proba', d.log_proba(p, X), o.log_proba(p, X)),
            ('entropy', d.entropy(p), o.entropy(p)),
            ('cross-entropy', d.cross_entropy(p, q), o.cross(p, q)),
            ('kl-divergence', d.kl_divergence(p, q), o.cross(p, q) - o.entropy(p)),
            ('kl-divergence-of-itself', d.kl_divergence(p, p), onp.zeros(b))):
        got = onp.asarray(got, 'float64')
        m.eq(got.shape, (b,), name + ':one-number-per-row')
        bad = ~(onp.abs(got - want) <= tol(want) + (1e-3 * onp.abs(o.entropy(p)) if 'kl' in name else 0))
        m.true(not bad.any(), name, f'got={got} want={want}', type(o).__name__)
        m.ev('identities')
    return p


@scenario(quick=60, thorough=2500, floor={'identities': 400, 'sampled': 60000})
def leaf_dists(m):
    rng = m.rng
    o = pick(rng, [Cat, Nor])(rng)
    if isinstance(o, Nor) and rng.random() < 0.4:
        o.clip = (-1.0, 0.5)
        d = pd.NormalDist(o.space, clip_logvar=o.clip)
    else:
        d = (pd.CategoricalDist if isinstance(o, Cat) else pd.NormalDist)(o.space)
        if rng.random() < 0.3:
            d = pd.ProbaDist(o.space)
    for _ in range(3):
        p = identities(m, o, d, int(pick(rng, [1, 4])))
        m.close(d.mean(p), o.mean(p), 'mean', rtol=1e-3, atol=1e-5)
        o.mode_ok(m, p, d.mode(p))
        n = 3000
        one = jax.tree_util.tree_map(lambda x: jnp.repeat(x[:1], n, 0), p)
        o.stats(m, p, d.sample(one, key(rng)), 'samples')
        a, b2, c = d.sample(one, KEY(7)), d.sample(one, KEY(7)), d.sample(one, KEY(8))
        m.tree_eq(a, b2, 'equal-keys-give-equal-samples')
        if n > 10 and not isinstance(o, Cat):
            m.true(not onp.allclose(a, c), 'different-keys-give-different-samples')
        m.nontrivial(type(o).__name__, type(d).__name__, o.space.shape, _)
    pri = d.default_priors
    m.eq(jax.tree_util.tree_structure(pri), d.dist_params_structure, 'structure-of-the-parameters')
    m.close(d.entropy(pri), o.entropy(pri), 'entropy-of-the-prior', rtol=1e-4)
    if isinstance(o, Cat):
        m.close(o.mean(pri), onp.full((1, o.n), 1 / o.n), 'default-prior-is-uniform')
    m.sample(dist=type(d).__name__, space=str(o.space))


@scenario(quick=12, thorough=400, floor={'rare-sampled': 100000})
def many_categories(m):
    rng = m.rng
    state = {}

    def sample(logits, N):
        n = len(logits)
        d = pick(rng, [pd.CategoricalDist, pd.ProbaDist])(gym.spaces.Discrete(n))
        p = {'logits': jnp.repeat(f32(logits)[None], N, 0)}
        X = d.sample(p, key(rng))
        lp = onp.asarray(d.log_proba({'logits': f32(logits)[None].repeat(n, 0)}, jnp.eye(n)), 'float64')
        m.close(lp, log_softmax(logits.astype('float64')), 'log-proba-of-every-category', rtol=1e-3, atol=1e-3)
        state['d'] = type(d).__name__
        return onp.asarray(X).argmax(1)
    how = rare_categories(m, rng, sample, 'categorical')
    m.nontrivial(*how)
    m.sample(how=how, dist=state['d'])


@scenario(quick=40, thorough=1500, floor={'identities': 250, 'composite-sampled': 20000})
def composite_dists(m):
    rng = m.rng
    o = Comp(rng)
    d = pd.ProbaDist(o.space)
    m.log(str(o.space))
    p = identities(m, o, d)
    n = 2000
    one = jax.tree_util.tree_map(lambda x: jnp.repeat(x[:1], n, 0), p)
    X = d.sample(one, key(rng))
    lv = o.leaves(p, X)
    for leaf, a, x in lv:
        leaf.stats(m, a, x, 'composite-samples')
    cols = [leaf.scalar(x) for leaf, a, x in lv]
    cols = [c for c in cols if c.std() > 0 and (c != onp.median(c)).sum() > 100]
    for i in range(len(cols)):
        for j in range(i):
            r = onp.corrcoef(cols[i], cols[j])[0, 1]
            m.true(abs(r) < 0.25, 'components-are-sampled-independently', r)
            m.ev('pairs')
    for leaf, a, x in o.leaves(p, d.mean(p)):
        m.close(x, leaf.mean(a), 'composite-mean', rtol=1e-3, atol=1e-5)
    for leaf, a, x in o.leaves(p, d.mode(p)):
        leaf.mode_ok(m, a, x)
    m.ev('composite-sampled', n)
    m.nontrivial(str(o.space))
    m.sample(space=str(o.space), leaves=len(lv))


@scenario(quick=40, thorough=1500, floor={'affine': 200})
def affine(m):
    rng = m.rng
    kind = pick(rng, ['normal', 'interval', 'quantile', 'quantile', 'interval'])
    b = int(pick(rng, [1, 3]))
    for _ in range(3):
        scalar = rng.random() < 0.3
        scale = f32(rng.uniform(0.1, 2) if scalar else rng.uniform(0.0 if kind != 'normal' else 0.1, 1.5, b))
        shift = f32(rng.normal() if scalar else rng.normal(size=b) * 2)
        sc = onp.broadcast_to(onp.asarray(scale, 'float64'), (b,))
        sh = onp.broadcast_to(onp.asarray(shift, 'float64'), (b,))
        tr = Transform(rng) if rng.random() < 0.4 and kind != 'normal' else None
        vt = None if tr is None else coax.value_transforms.ValueTransform(*tr.jax) \
            if isinstance(tr.jax, tuple) else tr.jax
        f, fi = (tr.f, tr.f_inv) if tr else ((lambda x: x), (lambda x: x))
        if kind == 'normal':
            dim = int(rng.integers(1, 4))
            d = pd.NormalDist(gym.spaces.Box(-3, 3, (dim,)))
            mu, lv = rng.normal(size=(b, dim)), rng.normal(size=(b, dim))
            s2, h2 = (scale, shift) if scalar else (scale[:, None], shift[:, None])
            out = d.affine_transform({'mu': f32(mu), 'logvar': f32(lv)}, s2, h2, None)
            m.close(out['mu'], mu * sc[:, None] + sh[:, None], 'affine-mean', rtol=1e-3, atol=1e-4)
            m.close(out['logvar'], lv + 2 * onp.log(sc[:, None]), 'affine-variance', rtol=1e-3, atol=1e-3)
        elif kind == 'quantile':
            n = int(rng.integers(1, 7))
            d = pd.EmpiricalQuantileDist(n)
            v = rng.normal(size=(b, n))
            fr = f32(rng.random((b, n)))
            out = d.affine_transform({'values': f32(v), 'quantile_fractions': fr}, scale, shift, vt)
            m.close(out['values'], f(fi(v) * sc[:, None] + sh[:, None]), 'affine-quantiles', rtol=2e-3, atol=1e-3)
            m.tree_eq(out['quantile_fractions'], fr, 'quantile-fractions-kept')
        else:
            n = int(rng.integers(2, 9))
            lo, hi = float(rng.uniform(-5, -1)), float(rng.uniform(1, 5))
            d = pd.DiscretizedIntervalDist(gym.spaces.Box(lo, hi, shape=()), n)
            z = lo + (onp.arange(n) + 0.5) * (hi - lo) / n
            m.close(d.atoms, z, 'atoms-are-bin-centers', rtol=1e-4, atol=1e-5)
            p = onp.exp(log_softmax(rng.normal(size=(b, n)) * 2))
            out = d.affine_transform({'logits': f32(onp.log(p))}, scale, shift, vt)
            got = onp.exp(onp.asarray(out['logits'], 'float64'))
            m.close(got.sum(1), onp.ones(b), 'projection-conserves-mass', rtol=2e-3)
            y = onp.clip(f(fi(z)[None] * sc[:, None] + sh[:, None]), z[0], z[-1])
            m.close(got @ z, (p * y).sum(1), 'projection-preserves-the-mean-of-clipped-atoms', rtol=5e-3, atol=5e-3)
            t = (y - z[0]) / (z[1] - z[0])
            want = onp.zeros((b, n))
            for i in range(b):
                for k in range(n):
                    w = onp.maximum(0, 1 - onp.abs(t[i, k] - onp.arange(n)))
                    want[i] += p[i, k] * w
            m.close(got, want, 'projection-to-neighbouring-atoms', rtol=5e-3, atol=2e-3)
        m.ev('affine', b)
        m.nontrivial(kind, scalar, tr.kind if tr else None, b)
    m.sample(kind=kind)


@scenario(quick=16, thorough=600, floor={'affine-leaves': 60})
def composite_affine(m):
    """component by component, with scales and shifts of the same structure"""
    rng = m.rng

    def box():
        return gym.spaces.Box(-3., 3., (int(rng.integers(1, 4)),))

    def space(depth=0):
        how = rng.random()
        if how < 0.3 or depth == 2:
            return box()
        if how < 0.65:
            return gym.spaces.Tuple([space(depth + 1) for _ in range(int(rng.integers(1, 4)))])
        return gym.spaces.Dict({k: space(depth + 1) for k in ('b', 'a', 'c')[:int(rng.integers(1, 4))]})

    def build(sp, f):
        if isinstance(sp, gym.spaces.Box):
            return f(sp)
        if isinstance(sp, gym.spaces.Tuple):
            return tuple(build(x, f) for x in sp)
        return {k: build(x, f) for k, x in sp.items()}

    def walk(sp, *trees):
        if isinstance(sp, gym.spaces.Box):
            yield trees
        elif isinstance(sp, gym.spaces.Tuple):
            m.true(all(len(t) == len(sp) for t in trees), 'structure-kept')
            for i, x in enumerate(sp):
                yield from walk(x, *[t[i] for t in trees])
        else:
            m.true(all(set(t) == set(sp.spaces) for t in trees), 'structure-kept')
            for k, x in sp.items():
                yield from walk(x, *[t[k] for t in trees])

    sp, b = space(), int(pick(rng, [1, 3]))
    d = pd.ProbaDist(sp)
    p = build(sp, lambda x: {'mu': f32(rng.normal(size=(b,) + x.shape)), 'logvar': f32(rng.normal(size=(b,) + x.shape))})
    scale, shift = build(sp, lambda x: float(rng.uniform(0.1, 2))), build(sp, lambda x: float(rng.normal()))
    tr = build(sp, lambda x: Transform(rng))
    nested = any(not isinstance(x, gym.spaces.Box) for x in (sp if isinstance(sp, gym.spaces.Tuple) else
                                                              [] if isinstance(sp, gym.spaces.Box) else sp.values()))
    for rnd in range(2):
        if rnd == 0:
            out = d.affine_transform(p, scale, shift)
        elif nested:
            continue
        else:
            out = d.affine_transform(p, scale, shift, build_vt(sp, tr))
        for a, c, h, t, o in walk(sp, p, scale, shift, tr, out):
            f, fi = (t.f, t.f_inv) if rnd else ((lambda x: x), (lambda x: x))
            m.close(o['mu'], f(fi(onp.asarray(a['mu'], 'float64')) * c + h), 'affine-mean', rtol=2e-3, atol=1e-3)
            if not rnd:
                m.close(o['logvar'], onp.asarray(a['logvar'], 'float64') + 2 * onp.log(c), 'affine-variance',
                        rtol=1e-3, atol=1e-3)
            m.ev('affine-leaves')
    m.nontrivial(str(sp))
    m.sample(space=str(sp))


def build_vt(sp, tr):
    def one(t):
        return coax.value_transforms.ValueTransform(*t.jax) if isinstance(t.jax, tuple) else t.jax
    if isinstance(sp, gym.spaces.Box):
        return one(tr)
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(one(t) for t in tr)
    return {k: one(t) for k, t in tr.items()}


@scenario(quick=30, thorough=1000, floor={'quantile-sampled': 20000})
def empirical_quantiles(m):
    rng = m.rng
    n, b = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    d = pd.EmpiricalQuantileDist(n)
    v = rng.normal(size=(b, n)).astype('float32')
    if n > 2 and rng.random() < 0.5:
        v[:, 1] = v[:, 0]                       # a repeated value counts twice
    p = {'values': f32(v), 'quantile_fractions': f32(onp.tile((onp.arange(n) + 0.5) / n, (b, 1)))}
    m.close(d.mean(p), v.astype('float64').mean(1), 'mean', rtol=1e-4, atol=1e-5)
    N = 1200
    rep = jax.tree_util.tree_map(lambda x: jnp.repeat(x, N, 0), p)
    X = onp.asarray(d.sample(rep, key(rng)))
    m.eq(X.shape, (b * N,), 'one-value-per-row')
    lp = onp.asarray(d.log_proba(rep, jnp.asarray(X)), 'float64')
    for i in range(b):
        x = X[i * N:(i + 1) * N]
        m.true(onp.isin(x, v[i]).all(), 'samples-are-quantiles-of-their-own-row')
        vals, cnt = onp.unique(v[i], return_counts=True)
        for a, c in zip(vals, cnt):
            q = c / n
            k = (x == a).sum()
            m.true(abs(k - N * q) <= 6.5 * onp.sqrt(N * q * (1 - q) + 1), 'sample-frequency', k / N, q)
            got = lp[i * N:(i + 1) * N][x == a]
            if len(got):
                m.close(got, onp.full(len(got), onp.log(q)), 'log-proba-of-a-quantile', rtol=1e-4, atol=1e-5)
        m.ev('quantile-sampled', N)
    m.nontrivial(n, b)
    m.sample(n=n, b=b)


@scenario(quick=30, thorough=900, floor={'squashed': 30000, 'near-the-edge': 50})
def squashed_normal(m):
    rng = m.rng
    dim = int(rng.integers(1, 5))
    low = rng.uniform(-5, 0, dim).astype('float32')
    high = (low + rng.uniform(0.5, 6, dim)).astype('float32')
    shape = pick(rng, {1: [(1,), (1,), (), (1, 1)], 4: [(4,), (2, 2), (4, 1), (1, 2, 2)]}.get(dim, [(dim,), (dim,), (dim, 1)]))
    space = gym.spaces.Box(low.reshape(shape), high.reshape(shape), dtype='float32')
    kw = {} if rng.random() < 0.5 else {'clip_logvar': pick(rng, [(-10., 2.), (-1.2, -0.4)])}
    d = pd.SquashedNormalDist(space, **kw)
    N = 1500
    mu, lv = rng.normal(size=dim) * pick(rng, [0.7, 0.7, 1.5]), rng.uniform(-2, 0, dim)
    p = {'mu': f32(onp.tile(mu, (N, 1)).reshape((N,) + shape)), 'logvar': f32(onp.tile(lv, (N, 1)).reshape((N,) + shape))}
    if kw:
        lv = onp.clip(lv, *kw['clip_logvar'])            # the allowed range of log-variances
    X = onp.asarray(d.sample(p, key(rng)), 'float64')
    m.eq(X.shape, (N,) + shape, 'shape')
    X = X.reshape(N, dim)
    eps = 1e-5 * (1 + onp.abs(low) + onp.abs(high))
    m.true(onp.all((X >= low - eps) & (X <= high + eps)), 'samples-lie-in-the-box')
    u = 2 * (X - low) / (high.astype('float64') - low) - 1
    ok = onp.all(onp.abs(u) < 0.9999, axis=1)
    raw = onp.arctanh(onp.clip(u, -0.999999, 0.999999))
    z = (onp.median(raw, 0) - mu) / onp.exp(lv / 2) * onp.sqrt(N) / 1.2533
    m.true(onp.all(onp.abs(z) < 6.5), 'median-of-the-squashed-samples', z)
    inner = onp.abs(mu) + onp.exp(lv / 2) < 6            # the inverse of tanh is accurate there
    s = onp.where(inner, (onp.abs(raw - mu) < onp.exp(lv / 2)).mean(0), 0.6827)
    m.true(onp.all(onp.abs(s - 0.6827) < 6.5 * onp.sqrt(0.6827 * 0.3173 / N)), 'spread-of-the-samples', s)
    want = (-0.5 * (LOG2PI + lv + (raw - mu) ** 2 * onp.exp(-lv))
            - onp.log1p(-u ** 2) - onp.log((high.astype('float64') - low) / 2)).sum(1)
    got = onp.asarray(d.log_proba(p, f32(X.reshape((N,) + shape))), 'float64')
    m.eq(got.shape, (N,), 'one-log-density-per-row')
    # rounding of x to float32, magnified near the edges of the box
    du = 1e-6 * (1 + (onp.abs(low) + onp.abs(high)) / (high - low)) / onp.maximum(1 - u ** 2, 1e-6)
    slack = (du * (onp.abs(raw - mu) * onp.exp(-lv) + 2)).sum(1)
    m.true(onp.all((onp.abs(got - want) <= 5e-2 + 5e-3 * onp.abs(want) + slack)[ok]), 'log-density-in-the-box',
           got[ok][:4], want[ok][:4])
    m.ev('near-the-edge', int((ok & (onp.abs(u).max(1) > 0.9993)).sum()))
    mid = (low.astype('float64') + high) / 2 + (high.astype('float64') - low) / 2 * onp.tanh(mu)
    m.close(onp.reshape(d.mean(p)[0], dim), mid, 'mean', rtol=1e-3, atol=1e-4)
    m.close(onp.reshape(d.mode(p)[0], dim), mid, 'mode', rtol=1e-3, atol=1e-4)
    # documented as those of the normal variable that is squashed
    mu2, lv2 = rng.normal(size=dim), rng.uniform(-2, 1, dim)
    if kw:
        lv2 = onp.clip(lv2, *kw['clip_logvar'])
    q = {'mu': f32(onp.tile(mu2, (N, 1)).reshape((N,) + shape)), 'logvar': f32(onp.tile(lv2, (N, 1)).reshape((N,) + shape))}
    ent = 0.5 * (LOG2PI + lv + 1).sum()
    ce = 0.5 * (LOG2PI + lv2 + ((mu - mu2) ** 2 + onp.exp(lv)) / onp.exp(lv2)).sum()
    m.close(d.entropy(p), onp.full(N, ent), 'entropy', rtol=1e-3, atol=1e-3)
    m.close(d.cross_entropy(p, q), onp.full(N, ce), 'cross-entropy', rtol=1e-3, atol=1e-3)
    m.close(d.kl_divergence(p, q), onp.full(N, ce - ent), 'kl-divergence', rtol=2e-3, atol=2e-3)
    m.ev('squashed', N)
    m.nontrivial(shape, bool(kw))
    m.sample(space=str(space))
