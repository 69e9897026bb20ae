"""C15: elements of a space survive pre- and post-processing; whatever a distribution emits is in the space."""
import warnings

import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from coax import proba_dists as pd
from vmon import scenario
from vmon.gen import pick
from vmon.dists import f32
from vmon.spaces import box, element, leaves, member, space, stack

KEY = jax.random.PRNGKey


def key(rng):
    return KEY(int(rng.integers(2 ** 31)))


def one_hot(x, n):
    return onp.eye(n)[onp.asarray(x).reshape(-1)]


def same(m, sp, got, want, rule):
    """equal exactly for discrete leaves, to float32 accuracy for boxes"""
    for (p, s, g), (_, _, w) in zip(leaves(sp, got), leaves(sp, want)):
        if isinstance(s, gym.spaces.Box) and onp.issubdtype(s.dtype, onp.floating):
            lo, hi = onp.maximum(s.low, -256.).astype('float64'), onp.minimum(s.high, 256.).astype('float64')
            d = onp.abs(onp.asarray(g, 'float64') - onp.asarray(w, 'float64'))
            ok = onp.all(d <= 2e-5 * (hi - lo) + 2e-6 * (onp.abs(lo) + onp.abs(hi)))
        else:
            ok = onp.array_equal(onp.asarray(g), onp.asarray(w))
        m.true(ok, rule, f'got={g!r} want={w!r} at {p or "leaf"} of {s}')


def rows(sp, batch, i):
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(rows(s, b, i) for s, b in zip(sp.spaces, batch))
    if isinstance(sp, gym.spaces.Dict):
        return {k: rows(s, batch[k], i) for k, s in sp.spaces.items()}
    return onp.asarray(batch)[i]


@scenario(quick=90, thorough=4000, floor={'round-trips': 150, 'batched': 150})
def round_trip(m):
    rng = m.rng
    sp = space(rng)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = pd.ProbaDist(sp)
    b = int(pick(rng, [1, 2, 3, 4, 5, 33]))
    xs = [element(rng, sp) for _ in range(b)]
    X = stack(sp, xs)
    raw = d.preprocess_variate(key(rng), X)
    ref = d.sample(jax.tree_util.tree_map(lambda v: jnp.repeat(v, b, axis=0), d.default_priors), key(rng))
    m.true(jax.tree_util.tree_structure(raw) == jax.tree_util.tree_structure(ref), 'raw-structure-is-that-of-samples')
    for g, w in zip(jax.tree_util.tree_leaves(raw), jax.tree_util.tree_leaves(ref)):
        m.eq(g.shape, w.shape, 'raw-shape-is-that-of-samples', str(sp))
    for i, x in enumerate(xs):
        m.ev('round-trips')
        y = d.postprocess_variate(key(rng), raw, index=i)
        m.true(member(sp, y), 'processed-element-is-in-the-space', f'{y!r} not in {sp}')
        same(m, sp, y, x, 'round-trip')
        r1 = d.preprocess_variate(key(rng), x)
        for g, w in zip(jax.tree_util.tree_leaves(r1), jax.tree_util.tree_leaves(raw)):
            m.eq(g.shape, (1,) + w.shape[1:], 'one-element-is-a-batch-of-one')
            m.close(g[0], w[i], 'batch-row-equals-single', rtol=1e-5, atol=1e-5)
        y1 = d.postprocess_variate(key(rng), r1)
        same(m, sp, y1, x, 'round-trip-single')
    yb = d.postprocess_variate(key(rng), raw, batch_mode=True)
    for i, x in enumerate(xs):
        same(m, sp, rows(sp, yb, i), x, 'round-trip-batched')
        m.ev('batched')
    m.nontrivial(str(sp), b)
    m.sample(space=str(sp), x=xs[0], raw=jax.tree_util.tree_leaves(raw)[0][0])


@scenario(quick=90, thorough=3000, floor={'emitted': 600})
def emitted_values(m):
    """samples and modes, also of extreme distributions, are elements of the space"""
    rng = m.rng
    sp = space(rng)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = pd.ProbaDist(sp)
    b = 4
    scale = pick(rng, [1., 10., 1e4, 1e20])

    def params(x):
        return jnp.asarray((rng.standard_normal((b,) + x.shape[1:]) * scale).astype('float32'))
    p = jax.tree_util.tree_map(params, d.default_priors)
    for raw in (d.sample(p, key(rng)), d.mode(p), d.mean(p) if scale < 100 else d.mode(p)):
        yb = d.postprocess_variate(key(rng), raw, batch_mode=True)
        for i in range(b):
            y = d.postprocess_variate(key(rng), raw, index=i)
            m.ev('emitted')
            m.true(member(sp, y), 'emitted-value-is-in-the-space', f'{y!r} not in {sp}')
            if scale < 100:
                same(m, sp, rows(sp, yb, i), y, 'batched-equals-indexed')
    m.nontrivial(str(sp), scale)
    m.sample(space=str(sp), scale=scale, y=y)


@scenario(quick=40, thorough=1500, floor={'box-inverse': 200})
def box_is_a_bijection(m):
    """reals -> box -> reals, increasing in every coordinate; clip_box bounds unbounded spaces"""
    rng = m.rng
    sp = box(rng, ints=False)
    lim = float(pick(rng, [256., 1000.]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = pd.NormalDist(sp, clip_box=(-lim, lim))
    lo, hi = onp.maximum(sp.low, -lim).astype('float64'), onp.minimum(sp.high, lim).astype('float64')
    for _ in range(6):
        z = rng.uniform(-4, 4, (3,) + sp.shape)
        x = onp.asarray(d.postprocess_variate(key(rng), jnp.asarray(z, 'float32'), batch_mode=True), 'float64')
        want = lo + (hi - lo) / (1 + onp.exp(-z))
        m.true(onp.all(onp.abs(x - want) <= 3e-6 * (hi - lo) + 1e-6 * (abs(lo) + abs(hi))), 'sigmoid-onto-the-box',
               x, want)
        ok = (hi - lo) > 1e-3 * (onp.abs(lo) + onp.abs(hi))     # otherwise float32 cannot resolve it
        back = onp.asarray(d.preprocess_variate(key(rng), x.astype(sp.dtype)), 'float64')
        m.true(onp.all(onp.abs(back - z)[:, ok] < 0.05), 'inverse-of-postprocess', back, z)
        m.ev('box-inverse')
    out = onp.full(sp.shape, lim * 3)
    if not onp.all(onp.isfinite(sp.high)):
        y = d.postprocess_variate(key(rng), d.preprocess_variate(key(rng), out))
        m.close(y, onp.broadcast_to(hi, sp.shape), 'clipped-to-clip-box', rtol=1e-4, atol=1e-3)
    m.nontrivial(str(sp), lim)


@scenario(quick=40, thorough=1500, floor={'bins': 500})
def discretized_interval(m):
    rng = m.rng
    lo = float(onp.float32(rng.uniform(-20, 20)))
    hi = float(onp.float32(lo + 10. ** rng.uniform(-1, 2)))
    n = int(rng.integers(2, 60))
    d = pd.DiscretizedIntervalDist(gym.spaces.Box(lo, hi, shape=pick(rng, [(), (1,)]), dtype='float32'), num_bins=n)
    width = (hi - lo) / n
    m.close(d.atoms, lo + (onp.arange(n) + 0.5) * width, 'atoms-are-the-bin-centres', rtol=1e-5, atol=1e-5 * (hi - lo))
    xs = onp.concatenate([[lo, hi], lo + (hi - lo) * rng.random(20)]).astype('float32')
    xs = onp.clip(xs, onp.float32(lo), onp.float32(hi))
    raw = onp.asarray(d.preprocess_variate(key(rng), xs))
    m.eq(raw.shape, (len(xs), n), 'one-hot-shape')
    m.true(onp.all(raw.sum(1) == 1) and set(onp.unique(raw)) <= {0., 1.}, 'exactly-one-bin', raw)
    y = onp.asarray(d.postprocess_variate(key(rng), jnp.asarray(raw), batch_mode=True), 'float64')
    m.true(onp.all(onp.abs(y - xs) <= 0.5 * width + 1e-5 * (abs(lo) + abs(hi))), 'nearest-bin-centre', y, xs)
    for i in range(3):
        m.close(d.postprocess_variate(key(rng), jnp.asarray(raw), index=i), y[i], 'indexed-equals-batched', rtol=1e-6)
    x0 = float(xs[2])
    m.eq(onp.asarray(d.preprocess_variate(key(rng), x0)), raw[2:3], 'single-equals-batch')
    m.ev('bins', len(xs))
    m.nontrivial(n, lo)


@scenario(quick=30, thorough=1000, floor={'squashed-round-trips': 300, 'squashed-emitted': 700})
def squashed_normal(m):
    """the squashed normal emits elements of its box, whatever its parameters"""
    rng = m.rng
    sp = box(rng, ints=False, unbounded=False)
    d = pd.SquashedNormalDist(sp)
    b = 8
    xs = [element(rng, sp) for _ in range(b)]
    raw = d.preprocess_variate(key(rng), stack(sp, xs))
    for i, x in enumerate(xs):
        y = d.postprocess_variate(key(rng), raw, index=i)
        m.true(member(sp, y), 'processed-element-is-in-the-space', f'{y!r} not in {sp}')
        same(m, sp, y, x, 'round-trip')
        same(m, sp, d.postprocess_variate(key(rng), d.preprocess_variate(key(rng), x)), x, 'round-trip-single')
        m.ev('squashed-round-trips', 2)
    for scale in (1., 30., 1e4):
        p = {k: f32(rng.standard_normal((b,) + sp.shape) * (scale if k == 'mu' else 2)) for k in ('mu', 'logvar')}
        for raw in (d.sample(p, key(rng)), d.mode(p)):
            yb = onp.asarray(d.postprocess_variate(key(rng), raw, batch_mode=True))
            for i in range(b):
                y = d.postprocess_variate(key(rng), raw, index=i)
                m.true(member(sp, y), 'emitted-value-is-in-the-space', f'{y!r} not in {sp}')
                same(m, sp, yb[i], y, 'batched-equals-indexed')
                m.ev('squashed-emitted')
    m.nontrivial(str(sp))
    m.sample(space=str(sp), y=y)


def expected(sp, X, b):
    """numpy oracle of coax.utils.default_preprocessor on a batch"""
    if isinstance(sp, gym.spaces.Discrete):
        return one_hot(X, sp.n)
    if isinstance(sp, gym.spaces.MultiDiscrete):
        return [one_hot(onp.asarray(X).reshape(b, -1)[:, i], n) for i, n in enumerate(sp.nvec)]
    if isinstance(sp, gym.spaces.MultiBinary):
        return onp.asarray(X).reshape(b, sp.n)
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(expected(s, x, b) for s, x in zip(sp.spaces, X))
    if isinstance(sp, gym.spaces.Dict):
        return {k: expected(s, X[k], b) for k, s in sp.spaces.items()}
    return onp.clip(onp.asarray(X).reshape((b,) + sp.shape), sp.low, sp.high)


@scenario(quick=120, thorough=4000, floor={'preprocessed': 200})
def default_preprocessor(m):
    rng = m.rng
    sp = space(rng)
    f = coax.utils.default_preprocessor(sp)
    b = int(pick(rng, [1, 2, 3, 4, 5, 33]))
    xs = [element(rng, sp) for _ in range(b)]
    got = f(key(rng), stack(sp, xs))
    m.tree_close(got, expected(sp, stack(sp, xs), b), 'batch-encoding', rtol=1e-6, atol=1e-6)
    for x in xs:
        m.tree_close(f(key(rng), x), expected(sp, stack(sp, [x]), 1), 'single-encoding', rtol=1e-6, atol=1e-6)
        m.ev('preprocessed')
    if isinstance(sp, gym.spaces.Box) and onp.issubdtype(sp.dtype, onp.floating):
        far = (onp.asarray(xs[0], 'float64') + rng.choice([-1e3, 1e3], sp.shape)).astype(sp.dtype)
        m.close(f(key(rng), far)[0], onp.clip(far, sp.low, sp.high), 'box-is-clipped', rtol=1e-6, atol=1e-6)
    if rng.random() < 0.2:
        m.true(coax.utils.check_preprocessors(sp, f, coax.utils.default_preprocessor(sp), num_samples=5),
               'equal-preprocessors-are-recognised')
        g = lambda r, x: jax.tree_util.tree_map(lambda v: v + 1, f(r, x))
        m.true(not coax.utils.check_preprocessors(sp, f, f, g, num_samples=5), 'different-preprocessors-are-recognised')
    m.nontrivial(str(sp), b)
    m.sample(space=str(sp), x=xs[0])
