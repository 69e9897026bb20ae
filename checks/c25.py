"""C25: array, tree and environment helpers do what their documentation says."""
import collections
import logging
import os
import shutil
import tempfile
import warnings

import gymnasium as gym
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
from PIL import Image

import coax
from coax.envs import ConnectFourEnv
from coax.utils._array import tree_sample
from vmon import scenario
from vmon.gen import pick
from vmon.models import Act, DistModel, Obs, PiModel, QModel, SAModel, VModel, obs_outputs


def key(rng):
    return jax.random.PRNGKey(int(rng.integers(2 ** 31)))


def shape(rng, lo=0, hi=4, dims=3):
    return tuple(int(x) for x in rng.integers(lo, hi, int(rng.integers(1, dims + 1))))


def tree(rng, b=None, depth=0, dtype=None):
    """a random pytree of arrays; with ``b``: all leaves have leading axis b"""
    k = pick(rng, ['leaf', 'dict', 'tuple', 'list']) if depth < 2 else 'leaf'
    if k == 'leaf':
        shp = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
        shp = shp if b is None else (b,) + shp
        x = rng.normal(size=shp) * 10
        d = dtype or pick(rng, ['float32', 'int32'])
        return pick(rng, [onp.asarray, jnp.asarray])(x, dtype=d)
    n = int(rng.integers(1, 4))
    xs = [tree(rng, b, depth + 1, dtype) for _ in range(n)]
    return {'dict': lambda: {f'k{i}': x for i, x in enumerate(xs)}, 'tuple': lambda: tuple(xs),
            'list': lambda: list(xs)}[k]()


leaves = jax.tree_util.tree_leaves
structure = jax.tree_util.tree_structure


@scenario(quick=60, thorough=3000, floor={'argmax': 200, 'ties': 60})
def argmax_argmin(m):
    rng = m.rng
    for _ in range(5):
        shp = shape(rng, 1, 5)
        dt = pick(rng, ['float32', 'float32', 'int32', 'uint8'])
        x = rng.integers(0, 3, shp).astype(dt) if rng.random() < 0.7 else (rng.normal(size=shp) * 50).astype(
            'float32' if dt == 'uint8' else dt)
        if x.dtype == onp.float32:
            x = x * onp.float32(pick(rng, [1.0, 1e-30, 1e30, -1.0]))
            if rng.random() < 0.4:      # values of very different size side by side
                x = onp.where(rng.random(x.shape) < 0.4,
                              x * onp.float32(pick(rng, [1e7, -1e7, 1e-7, onp.inf])), x).astype('float32')
                x = onp.where(onp.isnan(x) | (onp.abs(x) < 1e-37), onp.float32(0), x)   # no subnormals
        axis = int(rng.integers(-len(shp), len(shp)))
        arr = pick(rng, [onp.asarray, jnp.asarray])(x)
        for f, ext in ((coax.utils.argmax, onp.max), (coax.utils.argmin, onp.min)):
            i = onp.asarray(f(key(rng), arr, axis=axis))
            m.eq(i.shape, onp.max(x, axis=axis).shape, 'shape', shp, axis)
            got = onp.take_along_axis(x, onp.expand_dims(i, axis), axis)
            m.eq(got, ext(x, axis=axis, keepdims=True), f.__name__ + '-is-extreme', x, axis)
            m.ev('argmax')
    # ties are broken uniformly
    n, k = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    x = onp.zeros(n + k, 'float32')
    best = rng.permutation(n + k)[:n]
    x[best] = 1.0
    keys = jax.random.split(key(rng), 4000)
    for f, arr in ((coax.utils.argmax, x), (coax.utils.argmin, -x)):
        i = onp.asarray(jax.vmap(lambda r: f(r, jnp.asarray(arr)))(keys))
        c = onp.bincount(i, minlength=n + k)
        m.true(c[best].sum() == 4000, 'only-ties-are-returned', c, best)
        p = 1 / n
        z = onp.abs(c[best] - 4000 * p) / onp.sqrt(4000 * p * (1 - p))
        m.true(z.max() < 6.5, 'ties-are-broken-uniformly', c, best)
        m.ev('ties')
    m.nontrivial(shp, axis, dt, n, k)
    m.sample(shape=shp, axis=axis)


@scenario(quick=60, thorough=4000, floor={'trees': 100})
def trees(m):
    rng = m.rng
    b = int(rng.integers(1, 6))
    t = tree(rng, b)
    i = int(rng.integers(-b, b))
    s = coax.utils.batch_to_single(t, i) if rng.random() < 0.7 else coax.utils.batch_to_single(t, index=i)
    m.tree_eq(s, jax.tree_util.tree_map(lambda x: onp.asarray(x)[i], t), 'batch-to-single')
    m.tree_eq(coax.utils.batch_to_single(t), jax.tree_util.tree_map(lambda x: onp.asarray(x)[0], t),
              'batch-to-single-default')
    up = coax.utils.single_to_batch(s)
    m.tree_eq(up, jax.tree_util.tree_map(lambda x: onp.asarray(x)[None], s), 'single-to-batch')
    m.tree_eq(coax.utils.batch_to_single(up), s, 'round-trip')
    # stacking: one sequence of like-structured trees per argument (e.g. all params, all states)
    n = int(rng.integers(1, 4))
    seqs = []
    for _ in range(int(rng.integers(1, 4))):
        proto = tree(rng, None, 1)
        seqs.append([jax.tree_util.tree_map(lambda x: onp.asarray(rng.normal(size=x.shape) * 9, x.dtype), proto)
                     for _ in range(n)])
    st = coax.utils.stack_trees(*seqs)
    m.eq(len(st), len(seqs), 'one-stacked-tree-per-sequence')
    for one, seq in zip(st, seqs):
        for j, x in enumerate(seq):
            m.tree_eq(jax.tree_util.tree_map(lambda y: y[j], one), x, 'stacked-in-order')
        for y, x in zip(leaves(one), leaves(seq[0])):
            m.eq(y.shape, (n,) + x.shape, 'stacked-shape')
    # ravel
    flat = onp.asarray(coax.utils.tree_ravel(t))
    m.close(flat, onp.concatenate([onp.ravel(onp.asarray(x, 'float64')) for x in leaves(t)]), 'ravel',
            rtol=1e-6, atol=1e-6)
    # sampling
    axis = int(rng.choice([0, 0, 1, -1]))
    n = int(rng.integers(1, b + 1))
    k = int(rng.integers(2, 5))
    u = {'a': onp.moveaxis(onp.arange(b * k).reshape((b, k)), 0, axis),
         'b': (onp.moveaxis(onp.arange(b * 3 * 2).reshape((b, 3, 2)), 0, axis),)}
    replace = bool(rng.random() < 0.5)
    p = rng.random(b) + 0.01
    if b > 1 and n < b and rng.random() < 0.5:
        p[int(rng.integers(b))] = 0
    p = p / p.sum() if rng.random() < 0.6 else None
    if replace:
        n = int(rng.integers(1, 3 * b))
    out = tree_sample(u, key(rng), n=n, replace=replace, axis=axis,
                                 p=None if p is None else jnp.asarray(p))
    col = onp.moveaxis(u['a'], axis, 0)
    got = onp.moveaxis(onp.asarray(out['a']), axis, 0)
    m.eq(got.shape, (n, k), 'sample-size', axis)
    ix = [int(onp.flatnonzero((col == row).all(1))[0]) if (col == row).all(1).any() else -1 for row in got]
    m.true(min(ix) >= 0, 'sampled-rows-exist', got, col)
    m.eq(onp.moveaxis(onp.asarray(out['b'][0]), axis, 0), onp.moveaxis(u['b'][0], axis, 0)[ix],
         'leaves-sampled-together')
    m.true(replace or len(set(ix)) == n, 'without-replacement', ix)
    if p is not None:
        m.true(all(p[i] > 0 for i in ix), 'impossible-rows-not-sampled', ix, p)
    m.raises(TypeError, lambda: tree_sample({'a': onp.zeros((b, 2)), 'b': onp.zeros((b + 1, 2))},
                                                       key(rng)), 'inconsistent-batches-refused')
    m.ev('trees', 2)
    m.nontrivial(str(structure(t)), b, n, replace, axis)
    m.sample(tree=str(structure(t)), b=b)


@scenario(quick=16, thorough=400, floor={'weighted-draws': 16})
def sampling_frequencies(m):
    rng = m.rng
    b, N = int(rng.integers(2, 7)), 4000
    p = rng.random(b) + 0.05
    p /= p.sum()
    use = bool(rng.random() < 0.7)
    out = tree_sample({'i': jnp.arange(b)}, key(rng), n=N, replace=True, p=jnp.asarray(p) if use else None)
    c = onp.bincount(onp.asarray(out['i']), minlength=b)
    q = p if use else onp.full(b, 1 / b)
    z = onp.abs(c - N * q) / onp.sqrt(N * q * (1 - q))
    m.true(z.max() < 6.5, 'sampling-propensities', c, N * q)
    m.ev('weighted-draws')
    m.nontrivial(b, use)


@scenario(quick=60, thorough=4000, floor={'unvectorized': 60})
def unvectorized(m):
    rng = m.rng
    d = int(rng.integers(1, 5))
    w = rng.normal(size=(d, 3)).astype('float32')
    x = rng.normal(size=d).astype('float32')
    y = {'a': rng.normal(size=(2, d)).astype('float32'), 'b': onp.float32(rng.normal())}

    def f(w, X, Y):
        assert X.ndim == 2 and Y['a'].ndim == 3 and Y['b'].ndim == 1
        return jnp.dot(X, w), {'q': Y['a'] * Y['b'][:, None, None], 'r': jnp.sum(X, axis=1) + Y['b']}

    u, v = coax.unvectorize(f, in_axes=(None, 0, 0))(w, x, y)
    m.close(u, x @ w, 'unvectorize', rtol=1e-5, atol=1e-5)
    m.close(v['q'], y['a'] * y['b'], 'unvectorize', rtol=1e-5, atol=1e-5)
    m.close(v['r'], x.sum() + y['b'], 'unvectorize', rtol=1e-5, atol=1e-5)
    # other axes
    ax = int(rng.integers(0, 3))
    z = rng.normal(size=(2, d)).astype('float32')

    def g(Z):
        assert Z.ndim == 3 and Z.shape[ax] == 1
        return Z * 2

    m.close(coax.unvectorize(g, in_axes=ax, out_axes=ax)(z), z * 2, 'unvectorize-axis')
    one = onp.asarray(coax.unvectorize(g, in_axes=ax, out_axes=None)(z))
    m.close(one, onp.expand_dims(z * 2, ax), 'unvectorize-keep-axis')
    h = coax.unvectorize(lambda A, B: (A + 1, B), in_axes=(0, None), out_axes=(0, None))
    p_, q_ = h(z, z)
    m.close(p_, z + 1, 'unvectorize-two-outputs')
    m.close(q_, z, 'unvectorize-two-outputs')
    m.raises(ValueError, lambda: coax.unvectorize(f, in_axes=(0, 0))(w, x, y), 'in-axes-counted')
    m.raises(ValueError, lambda: coax.unvectorize(f, in_axes=(None, 0, 0), out_axes=(0, 0, 0))(w, x, y),
             'out-axes-counted')
    # agreement with a batch, row by row, inside a haiku transform
    lin = hk.transform(coax.unvectorize(lambda X: hk.Linear(3)(X)))
    params = lin.init(key(rng), x)
    X = rng.normal(size=(4, d)).astype('float32')
    want = X @ onp.asarray(params['linear']['w']) + onp.asarray(params['linear']['b'])
    for i in range(4):
        m.close(lin.apply(params, None, X[i]), want[i], 'unvectorize-rows', rtol=1e-4, atol=1e-4)
    m.ev('unvectorized')
    m.nontrivial(d, ax)


@scenario(quick=60, thorough=4000, floor={'numeric': 60})
def numeric(m):
    rng = m.rng
    shp = shape(rng, 1, 5)
    x = (rng.normal(size=shp) * 10.0 ** rng.integers(-3, 4)).astype('float32')
    y = onp.asarray(coax.utils.double_relu(jnp.asarray(x)))
    n = shp[-1]
    m.eq(y.shape, shp[:-1] + (2 * n,), 'double-relu-shape')
    m.eq(y[..., :n], onp.minimum(x, 0), 'double-relu-negative-half')
    m.eq(y[..., n:], onp.maximum(x, 0), 'double-relu-positive-half')
    # clipped logit
    p = rng.random(shp).astype('float32')
    p[rng.random(shp) < 0.2] = 0
    p[rng.random(shp) < 0.2] = 1
    eps = pick(rng, [None, 1e-15, 1e-6, 1e-2])
    z = coax.utils.clipped_logit(p) if eps is None else coax.utils.clipped_logit(p, eps)
    e = eps or 1e-15
    q = p.astype('float64')
    want = onp.log(onp.maximum(e, q)) - onp.log(onp.maximum(e, (onp.float32(1) - p).astype('float64')))
    m.close(z, want, 'clipped-logit', rtol=1e-4, atol=1e-4)
    # discrete differentiation: backward finite differences of the newest frame, newest last
    k = int(rng.integers(1, 7))
    X = rng.integers(-9, 9, (2, 3, k)).astype('float64')
    D = onp.asarray(coax.utils.diff_transform(X.astype('float32')))
    for j in range(k):
        order = k - 1 - j
        m.close(D[..., j], onp.diff(X, n=order, axis=-1)[..., -1], 'diff-transform', f'order {order}', rtol=1e-4,
                atol=1e-3)
    M = onp.asarray(coax.utils.diff_transform_matrix(num_frames=k))
    m.close(X.astype('float32') @ M, D, 'diff-transform-matrix', rtol=1e-4, atol=1e-3)
    m.eq(onp.asarray(coax.utils.diff_transform_matrix(k, dtype='int32')).dtype, onp.dtype('int32'), 'matrix-dtype')
    # index, scalar
    ax = int(rng.integers(-len(shp), len(shp)))
    m.eq(onp.asarray(coax.utils.idx(jnp.asarray(x), axis=ax)), onp.arange(shp[ax]), 'idx')
    m.eq(onp.asarray(coax.utils.idx(jnp.asarray(x))), onp.arange(shp[0]), 'idx-default')
    for v in (3, 2.5, onp.float32(1), onp.ones(()), onp.ones((1, 1)), jnp.ones(1), onp.int64(3)):
        m.true(coax.utils.isscalar(v), 'is-scalar', v)
    for v in (onp.ones(2), jnp.ones((1, 2)), [1], (1,), None, {}, onp.ones((0,))):
        m.true(not coax.utils.isscalar(v), 'is-not-scalar', v)
    # merging
    ds = [{f'{i}{j}': (i, j) for j in range(int(rng.integers(0, 3)))} for i in range(int(rng.integers(0, 4)))]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = coax.utils.merge_dicts(*ds)
        m.eq(len(w), 0, 'no-warning-without-overlap')
        m.eq(got, {k: v for d in ds for k, v in d.items()}, 'merged')
        m.eq(coax.utils.merge_dicts({'a': 1}, {'a': 2, 'b': 3}), {'a': 2, 'b': 3}, 'merged-overlap')
        m.eq(len(w), 1, 'overlap-warns')
    m.ev('numeric')
    m.nontrivial(shp, k, eps)


@scenario(quick=40, thorough=2000, floor={'diagnostics': 40})
def diagnostics(m):
    rng = m.rng
    t = tree(rng, int(rng.integers(1, 4)), dtype='float32')
    scale = onp.float32(10.0 ** rng.uniform(-3, 6))
    t = jax.tree_util.tree_map(lambda x: x * scale, t)
    flat = onp.concatenate([onp.ravel(onp.asarray(x, 'float64')) for x in leaves(t)])
    pre = pick(rng, ['', 'foo/'])
    d = coax.utils.get_grads_diagnostics(t, pre)
    m.eq(set(d), {pre + 'max', pre + 'norm'}, 'diagnostic-names')
    m.close(d[pre + 'max'], onp.abs(flat).max(), 'largest-gradient')
    m.close(d[pre + 'norm'], onp.sqrt((flat ** 2).sum()), 'gradient-norm')
    per = leaves(coax.utils.get_grads_diagnostics(t, pre, keep_tree_structure=True))
    m.eq(len(per), 2 * len(leaves(t)), 'per-leaf-diagnostics')
    for i, x in enumerate(leaves(t)):
        x = onp.asarray(x, 'float64')
        m.close(per[2 * i], onp.abs(x).max(), 'per-leaf-max')
        m.close(per[2 * i + 1], onp.sqrt((x ** 2).sum()), 'per-leaf-norm')
    q = coax.utils.get_magnitude_quantiles(t, pre)
    m.eq(list(q), [pre + k for k in ('min', 'p25', 'p50', 'p75', 'max')], 'quantile-names')
    m.close(onp.array([float(v) for v in q.values()]), onp.quantile(onp.abs(flat), [0, .25, .5, .75, 1]),
            'magnitude-quantiles', rtol=1e-4, atol=1e-5 * float(scale))
    m.ev('diagnostics')
    m.nontrivial(str(structure(t)), flat.size)


@scenario(quick=60, thorough=3000, floor={'synced': 60})
def shared_params(m):
    rng = m.rng
    mods = {f'mod{i}': {'w': tuple(rng.integers(1, 4, 2)), 'b': tuple(rng.integers(1, 4, 1))} for i in range(5)}
    n = int(rng.integers(2, 5))
    ps = []
    for _ in range(n):
        ks = [k for k in mods if rng.random() < 0.6]
        ps.append({k: {a: jnp.asarray(rng.normal(size=s), 'float32') for a, s in mods[k].items()} for k in ks})
    wts = [float(x) for x in rng.uniform(0.1, 3, n)] if rng.random() < 0.6 else None
    before = jax.tree_util.tree_map(onp.array, ps)
    given = ps if rng.random() < 0.5 else [hk.data_structures.to_immutable_dict(p) for p in ps]
    out = coax.utils.sync_shared_params(*given, weights=wts) if wts else coax.utils.sync_shared_params(*given)
    m.eq(len(out), n, 'one-output-per-input')
    ww = wts or [1.0] * n
    for i in range(n):
        m.eq(set(out[i]), set(ps[i]), 'same-modules')
        for k in ps[i]:
            have = [j for j in range(n) if k in ps[j]]
            for a in ps[i][k]:
                want = before[i][k][a] if len(have) == 1 else \
                    sum(ww[j] * before[j][k][a].astype('float64') for j in have) / sum(ww[j] for j in have)
                m.close(out[i][k][a], want, 'weighted-average-of-shared-params', k, have, rtol=1e-4, atol=1e-5)
    m.tree_eq(jax.tree_util.tree_map(onp.array, ps), before, 'inputs-untouched')
    m.raises(ValueError, lambda: coax.utils.sync_shared_params(*ps, weights=[1.0] * (n + 1)), 'weights-counted')
    m.ev('synced')
    m.nontrivial(n, wts is None, tuple(len(p) for p in ps))
    m.sample(modules=[sorted(p) for p in ps], weights=wts)


@scenario(quick=40, thorough=2000, floor={'array-checks': 200})
def array_checks(m):
    rng = m.rng
    shp = shape(rng, 1, 4)
    x = onp.zeros(shp, pick(rng, ['float32', 'int32']))
    arr = jnp.asarray(x)

    def ok(**kw):
        m.ev('array-checks')
        try:
            coax.utils.check_array(arr, **kw)
            return True
        except TypeError:
            return False

    nd = len(shp)
    for k in range(1, 5):
        m.eq(ok(ndim=k), nd == k, 'ndim')
        m.eq(ok(ndim_min=k), nd >= k, 'ndim-min')
        m.eq(ok(ndim_max=k), nd <= k, 'ndim-max')
        m.eq(ok(ndim=(k, k + 1)), nd in (k, k + 1), 'ndims')
        ax = int(rng.integers(nd))
        m.eq(ok(axis=ax, axis_size=k), shp[ax] == k, 'axis-size')
        m.eq(ok(axis=ax, axis_size={k, k + 1}), shp[ax] in (k, k + 1), 'axis-sizes')
    m.eq(ok(dtype='float32'), x.dtype == onp.float32, 'dtype')
    m.eq(ok(dtype=('float32', 'int32')), True, 'dtypes')
    m.eq(ok(shape=shp), True, 'array-shape')
    m.eq(ok(shape=shp + (1,)), False, 'array-shape')
    m.raises(TypeError, lambda: coax.utils.check_array(x), 'numpy-refused')
    coax.utils.check_array(x, except_np=True)
    m.raises(TypeError, lambda: coax.utils.check_array([1, 2], except_np=True), 'list-refused')
    m.nontrivial(shp, str(x.dtype))


def spaces(rng, depth=0):
    S = gym.spaces
    k = pick(rng, ['disc', 'box', 'box', 'ibox', 'md', 'mb', 'inf'] + (['dict', 'tuple'] if depth < 2 else []))
    if k == 'disc':
        return S.Discrete(int(rng.integers(1, 6)))
    if k == 'box':
        shp = shape(rng, 1, 3, 2)
        lo = rng.uniform(-50, 50, shp)
        return S.Box(lo.astype('float32'), (lo + rng.uniform(0.1, 40, shp)).astype('float32'))
    if k == 'ibox':
        return S.Box(0, 255, shape(rng, 1, 3, 2), 'uint8')
    if k == 'inf':
        return S.Box(-onp.inf, onp.inf, shape(rng, 1, 3, 2))
    if k == 'md':
        return S.MultiDiscrete([int(x) for x in rng.integers(1, 5, int(rng.integers(1, 4)))])
    if k == 'mb':
        return S.MultiBinary(int(rng.integers(1, 5)))
    if k == 'dict':
        return S.Dict({f'k{i}': spaces(rng, depth + 1) for i in range(int(rng.integers(1, 3)))})
    return S.Tuple([spaces(rng, depth + 1) for _ in range(int(rng.integers(1, 3)))])


@scenario(quick=60, thorough=3000, floor={'space-samples': 200, 'batches': 60})
def samples_from_spaces(m):
    rng = m.rng
    sp = spaces(rng)
    for _ in range(4):
        seed = int(rng.integers(2 ** 31))
        x, y = coax.utils.safe_sample(sp, seed=seed), coax.utils.safe_sample(sp, seed=seed)
        m.true(sp.contains(x), 'sample-belongs-to-the-space', str(sp), x)
        m.tree_eq(x, y, 'same-seed-same-sample')
        m.true(all(onp.all(onp.isfinite(v)) for v in leaves(x)), 'sample-is-finite')
        m.ev('space-samples')
    env = gym.Env()
    env.observation_space, env.action_space = sp, spaces(rng)
    b, gamma, seed = int(rng.integers(1, 6)), float(pick(rng, [0, 0.3, 0.9, 1])), int(rng.integers(2 ** 31))
    tb = coax.utils.get_transition_batch(env, batch_size=b, gamma=gamma, random_seed=seed)
    m.eq(tb.batch_size, b, 'batch-size')
    for f, space in (('S', sp), ('A', env.action_space), ('S_next', sp), ('A_next', env.action_space)):
        v = getattr(tb, f)
        for i in range(b):
            one = jax.tree_util.tree_map(lambda z: onp.asarray(z)[i], v)
            m.true(space.contains(one), 'batch-field-belongs-to-the-space', f, str(space), one)
    for f in ('logP', 'Rn', 'In', 'logP_next', 'W'):
        m.eq(onp.shape(getattr(tb, f)), (b,), 'field-shape', f)
        m.true(onp.all(onp.isfinite(getattr(tb, f))), 'field-finite', f)
    m.true(all(x <= 0 for x in tb.logP) and all(x <= 0 for x in tb.logP_next), 'log-propensities')
    m.true(all(onp.isclose(x, 0) or onp.isclose(x, gamma) for x in tb.In) and all(x > 0 for x in tb.W), 'domain')
    m.tree_eq(tuple(leaves(tb)), tuple(leaves(coax.utils.get_transition_batch(env, b, gamma, seed))), 'same-seed')
    m.raises(TypeError, lambda: coax.utils.get_transition_batch(env, batch_size=0), 'batch-size-checked')
    m.raises(TypeError, lambda: coax.utils.get_transition_batch(env, gamma=1.5), 'gamma-checked')
    m.raises(TypeError, lambda: coax.utils.safe_sample(3), 'space-checked')
    m.ev('batches')
    m.nontrivial(str(sp), b)
    m.sample(space=str(sp))


class Movie(gym.Env):
    """an environment of known length that counts what is asked of it"""
    metadata = {'render_modes': ['rgb_array']}

    def __init__(self, length, truncate, spec=None, mode='rgb_array'):
        self.observation_space, self.action_space = gym.spaces.Discrete(1000), gym.spaces.Discrete(7)
        self.length, self.truncate, self.render_mode, self.t = length, truncate, mode, 0
        self.log, self.spec = [], spec
        self.action_space.seed(3)

    def reset(self, **kw):
        self.log.append('reset')
        self.t = 0
        return 0, {}

    def step(self, a):
        self.log.append(('step', self.t, a))
        self.t += 1
        end = self.t >= self.length
        return self.t, 1.0, end and not self.truncate, end and self.truncate, {}

    def render(self):
        self.log.append(('render', self.t))
        f = onp.zeros((8, 12, 3), 'uint8')
        f[:, :, 0] = (37 * self.t) % 255
        f[self.t % 8, :, 1] = 200
        return f


@scenario(quick=30, thorough=600, floor={'episodes-shown': 60})
def shown_episodes(m):
    rng = m.rng
    L, trunc = int(rng.integers(1, 8)), bool(rng.random() < 0.5)
    acts = []

    def pi(s):
        acts.append(s)
        return int(s * 3 % 7)

    wrap = bool(rng.random() < 0.5)
    env = Movie(L, trunc)
    coax.utils.render_episode(coax.wrappers.TrainMonitor(env) if wrap else env, pi)
    steps = [x for x in env.log if x[0] == 'step']
    m.eq(steps, [('step', t, t * 3 % 7) for t in range(L)], 'policy-sees-the-current-state')
    m.eq(acts, list(range(L)), 'policy-called-once-per-step')
    shown = [x[1] for x in env.log if x[0] == 'render']
    m.eq(shown, list(range(L + 1)), 'every-state-rendered-once')
    env = Movie(L, trunc)
    coax.utils.render_episode(env)
    m.eq(len([x for x in env.log if x[0] == 'step']), L, 'random-policy-plays-one-episode')
    m.ev('episodes-shown')
    # gif
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, *pick(rng, [['x.gif'], ['a', 'b', 'x.gif']]))
        env = Movie(L, trunc, spec=pick(rng, [None, type('Spec', (), {'max_episode_steps': None})(),
                                              type('Spec', (), {'max_episode_steps': 50})()]))
        cap = pick(rng, [None, 3])
        acts.clear()
        size, ms = pick(rng, [None, (20, 10)]), int(pick(rng, [20, 40, 50, 110]))
        coax.utils.generate_gif(coax.wrappers.TrainMonitor(env) if wrap else env, path, pi, size, ms,
                                **({} if cap is None else {'max_episode_steps': cap}))
        n = min(L, cap or L)
        m.eq(acts, list(range(n)), 'gif-policy-sees-the-current-state')
        with Image.open(path) as im:
            m.eq(im.size, size or (12, 8), 'gif-size')
            m.true(n <= im.n_frames <= n + 1, 'gif-has-one-frame-per-step', im.n_frames, n)
            if n > 1:
                im.seek(0)
                m.eq(im.info.get('duration'), ms, 'gif-frame-duration')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m.ev('episodes-shown')
    m.nontrivial(L, trunc, wrap, cap, size)


@scenario(quick=24, thorough=600, floor={'predicates': 200})
def predicates(m):
    rng = m.rng
    obs, act = Obs(rng, img=True), Act(rng, 'disc')
    q = QModel(rng, obs, act).f
    shp, build = obs_outputs(obs, False)
    shp2, build2 = obs_outputs(obs, True)
    r = SAModel(rng, coax.RewardFunction, obs, act, {'out': ()}, lambda o: o['out'], pre='default').f
    p = SAModel(rng, coax.TransitionModel, obs, act, shp, build, pre='default').f
    v = VModel(rng, obs).f
    U = coax.utils
    table = [  # object, v, q, pi, model, reward, stochastic
        (v, 1, 0, 0, 0, 0, 0), (q, 0, 1, 0, 0, 0, 0),
        (DistModel(rng, obs, None, kind='cat').f, 1, 0, 0, 0, 0, 1),
        (DistModel(rng, obs, act).f, 0, 1, 0, 0, 0, 1),
        (PiModel(rng, obs, act).f, 0, 0, 1, 0, 0, 1),
        (p, 0, 0, 0, 1, 0, 0), (r, 0, None, 0, 0, 1, 0),     # a RewardFunction is a Q by design
        (SAModel(rng, coax.StochasticTransitionModel, obs, act, shp2, build2, pre='default').f, 0, 0, 0, 1, 0, 1),
        (coax.SuccessorStateQ(v, p, r, gamma=0.9), 0, 1, 0, 0, 0, 0),
        (coax.EpsilonGreedy(q, 0.1), 0, 0, 1, 0, 0, None), (coax.BoltzmannPolicy(q), 0, 0, 1, 0, 0, None),
        (None, 0, 0, 0, 0, 0, 0), (3, 0, 0, 0, 0, 0, 0), (obs.space, 0, 0, 0, 0, 0, 0)]
    for row in table:
        for f, want in zip((U.is_vfunction, U.is_qfunction, U.is_policy, U.is_transition_model,
                            U.is_reward_function, U.is_stochastic), row[1:]):
            if want is not None:
                m.eq(bool(f(row[0])), bool(want), f.__name__, type(row[0]).__name__)
                m.ev('predicates')
    # environment attributes
    e = gym.Env()
    e.foo = object()
    w = e
    depth = int(rng.integers(0, 5))
    for i in range(depth):
        w = gym.Wrapper(w)
    w.bar = 5
    m.true(U.has_env_attr(w, 'foo') and U.get_env_attr(w, 'foo') is e.foo, 'inner-attribute')
    m.eq(U.get_env_attr(w, 'bar'), 5, 'outer-attribute')
    if depth:
        e.bar = 7
        m.eq(U.get_env_attr(w, 'bar'), 5, 'outermost-first')
    e.zero, e.none = 0, None
    m.true(U.has_env_attr(w, 'zero') and U.has_env_attr(w, 'none'), 'false-like-attribute-exists')
    m.true(U.get_env_attr(w, 'zero', default=3) == 0 and U.get_env_attr(w, 'none', default=3) is None,
           'false-like-attribute-returned')
    m.true(not U.has_env_attr(w, 'nope'), 'missing-attribute')
    m.eq(U.get_env_attr(w, 'nope', default=None), None, 'default-attribute')
    m.raises(AttributeError, lambda: U.get_env_attr(w, 'nope'), 'missing-attribute-raises')
    m.nontrivial(obs.kind, depth)


@scenario(quick=40, thorough=1500, floor={'preprocessor-pairs': 100})
def preprocessor_comparison(m):
    rng = m.rng
    sp = spaces(rng)
    sp.seed(int(rng.integers(2 ** 31)))
    f, g = coax.utils.default_preprocessor(sp), coax.utils.default_preprocessor(sp)
    m.true(coax.utils.check_preprocessors(sp, f, g, num_samples=3), 'equal-preprocessors-match', str(sp))

    def off(r, x):
        return jax.tree_util.tree_map(lambda y: y + 1, f(r, x))

    m.true(not coax.utils.check_preprocessors(sp, f, off, num_samples=3), 'different-values-noticed', str(sp))
    m.true(not coax.utils.check_preprocessors(sp, f, g, off, num_samples=3), 'third-preprocessor-compared')
    m.true(not coax.utils.check_preprocessors(sp, f, lambda r, x: [f(r, x)], num_samples=3),
           'different-structure-noticed')
    m.raises(ValueError, lambda: coax.utils.check_preprocessors(sp, f), 'two-needed')
    m.ev('preprocessor-pairs', 3)
    m.nontrivial(str(sp))


@scenario(quick=30, thorough=600, floor={'log-records': 200, 'printed-arrays': 60})
def printing_and_logging(m):
    rng = m.rng
    U = coax.utils
    # printing mentions every array with its shape and dtype, whatever the nesting
    t = tree(rng, b=int(rng.integers(1, 6)))
    out = U.pretty_repr(t)
    arrays = [x for x in leaves(t) if isinstance(x, (onp.ndarray, jnp.ndarray))]
    want = collections.Counter(f'array(shape={x.shape}, dtype={x.dtype}' for x in arrays)
    for k, n in want.items():
        m.eq(out.count(k), n, 'every-array-is-printed', k, out)
    m.ev('printed-arrays', len(arrays))
    x = rng.normal(size=int(rng.integers(1, 9)))
    m.true(f'min={x.min():.3g}, median={onp.median(x):.3g}, max={x.max():.3g}' in U.pretty_repr(x), 'summary', x)
    tb = U.get_transition_batch(ConnectFourEnv(), batch_size=2)
    out = repr(tb)
    m.true(all(f'{k}=' in out for k, _ in tb.items()), 'every-field-of-a-batch-is-printed', out)
    m.eq(set(tb._asdict()), {k for k, _ in tb.items()}, 'batch-as-dict')
    @U.docstring(tree)
    def g(y):
        return 13 - y
    m.true(g.__doc__ == tree.__doc__ and g(3) == 10, 'docstring-is-copied')

    # a log file receives every message of its level and above, once, after earlier content
    root = logging.getLogger('')
    handlers, level, off = list(root.handlers), root.level, root.manager.disable
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, *(['a', 'b'] if rng.random() < 0.5 else []), 'x.log')
        lvl = int(pick(rng, [10, 20, 30]))
        olvl = pick(rng, [None, 10, 20, 30, 40])
        U.enable_logging(name=pick(rng, [None, 'p']), level=lvl, output_filepath=path, output_level=olvl)
        root.setLevel(1)
        logging.disable(logging.NOTSET)
        log = logging.getLogger('verif.' + str(m.index))
        log.propagate = True
        bar = lvl if olvl is None else olvl
        sent = [(int(pick(rng, [10, 20, 30, 40, 50])), f'message {i}!') for i in range(12)]
        other = [h for h in root.handlers if not isinstance(h, logging.FileHandler)]
        for h in other:
            root.removeHandler(h)
        for n, msg in sent:
            log.log(n, msg)
        got = open(path).read()
        for n, msg in sent:
            m.eq(got.count(msg), int(n >= bar), 'log-file-holds-its-level-and-above', n, bar)
        m.ev('log-records', len(sent))
        m.nontrivial(lvl, olvl, bool(arrays))
    finally:
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        for h in handlers:
            if h not in root.handlers:
                root.addHandler(h)
        root.setLevel(level)
        logging.disable(off)
        shutil.rmtree(tmp)
