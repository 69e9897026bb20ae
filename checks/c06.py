"""C06: segment trees agree with a flat array after any history."""
import functools

import numpy as onp

import coax
from coax.utils import SumTree, MinTree, MaxTree, SegmentTree
from vmon import scenario
from vmon.gen import pick

KINDS = {
    'sum': (lambda c: SumTree(capacity=c), onp.add, 0.0),
    'min': (lambda c: MinTree(capacity=c), onp.minimum, float('inf')),
    'max': (lambda c: MaxTree(capacity=c), onp.maximum, -float('inf')),
    'prod': (lambda c: SegmentTree(c, onp.multiply, 1.0), onp.multiply, 1.0),
}


def fold(op, xs, init):
    return functools.reduce(op, [float(x) for x in xs], init)


def as_idx(rng, ids):
    """The same indices in one of the accepted forms."""
    kind = pick(rng, ['int64', 'int32', 'list', 'neg'])
    if kind == 'list':
        return [int(i) for i in ids]
    return onp.array(ids, dtype='int32' if kind == 'int32' else 'int64')


@scenario(quick=1500, thorough=60000, floor={'writes': 5000, 'ranges': 20000, 'batched-ranges': 2000, 'levels': 5000})
def histories(m):
    rng = m.rng
    kind = pick(rng, list(KINDS))
    make, op, init = KINDS[kind]
    cap = int(pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100]))
    tree, flat = make(cap), onp.full(cap, init)
    tol = dict(rtol=1e-9, atol=1e-9)
    m.log(kind, cap)
    m.close(tree.root_value, init, 'empty-root', **tol)
    for _ in range(int(rng.integers(3, 15))):
        how = pick(rng, ['some', 'some', 'one', 'all', 'none', 'dup', 'neg'])
        gen = (lambda k: rng.random(k) * 10 * (rng.random(k) < 0.8)) if kind == 'sum' else \
            ((lambda k: rng.uniform(0.5, 1.5, k)) if kind == 'prod' else (lambda k: rng.standard_normal(k)))
        if how == 'all':
            v = gen(cap)
            tree.set_values(..., v)
            flat[:] = v
        elif how == 'none':
            v = gen(cap)
            tree.set_values(None, v)
            flat[:] = v
        elif how == 'one':
            i, v = int(rng.integers(cap)), float(gen(1)[0])
            tree.set_values(i, v)
            flat[i] = v
        elif how == 'neg':
            i, v = int(rng.integers(1, cap + 1)), gen(1)
            tree.set_values(onp.array([-i]), v)
            flat[cap - i] = v[0]
        elif how == 'dup':
            i = int(rng.integers(cap))
            ids = [i, int(rng.integers(cap)), i]
            vv = [float(x) for x in gen(3)]       # as in a flat array, the last write counts
            tree.set_values(onp.array(ids), onp.array(vv))
            for a, b in zip(ids, vv):
                flat[a] = b
        else:
            k = int(rng.integers(1, cap + 1))
            ids, v = rng.permutation(cap)[:k], gen(k)
            tree.set_values(as_idx(rng, ids), v)
            flat[ids] = v
        m.ev('writes')
        m.log(how, flat)
        m.close(onp.asarray(tree.values), flat, 'leaves', **tol)
        m.close(tree.root_value, fold(op, flat, init), 'root', **tol)
        # every level is the pairwise reduction of the level below it
        for _ in range(4):
            a = int(rng.integers(cap))
            b = int(rng.integers(a + 1, cap + 1))
            got = onp.ravel(tree.partial_reduce(a, b))
            m.close(got, [fold(op, flat[a:b], init)], 'partial-reduce', a, b, **tol)
            got = onp.ravel(tree.partial_reduce(a))
            m.close(got, [fold(op, flat[a:], init)], 'partial-reduce-to-end', a, **tol)
            got = onp.ravel(tree.partial_reduce(a - cap, b))
            m.close(got, [fold(op, flat[a:b], init)], 'partial-reduce-negative-start', a, b, **tol)
            if b < cap:
                got = onp.ravel(tree.partial_reduce(a, b - cap))
                m.close(got, [fold(op, flat[a:b], init)], 'partial-reduce-negative-stop', a, b, **tol)
            m.ev('ranges', 2)
        k = int(rng.integers(2, 9))
        A = rng.integers(0, cap, k)
        B = onp.array([int(rng.integers(a + 1, cap + 1)) for a in A])
        got = tree.partial_reduce(A, B)
        m.close(got, [fold(op, flat[a:b], init) for a, b in zip(A, B)], 'partial-reduce-batch', A, B, **tol)
        b = int(rng.integers(A.max() + 1, cap + 1))
        m.close(tree.partial_reduce(A, b), [fold(op, flat[a:b], init) for a in A],
                'partial-reduce-batch-scalar-stop', A, b, **tol)
        m.close(tree.partial_reduce(A), [fold(op, flat[a:], init) for a in A],
                'partial-reduce-batch-no-stop', A, **tol)
        m.close(tree.partial_reduce(0, B), [fold(op, flat[:b], init) for b in B],
                'partial-reduce-batch-scalar-start', B, **tol)
        m.ev('batched-ranges', 4)
        # the levels of the tree: node i of a level covers its share of the leaves
        h = int(tree.height)
        m.eq(h, int(onp.ceil(onp.log2(cap))) + 1, 'height')
        lv = int(rng.integers(h))
        w = 2 ** (h - 1 - lv)
        nodes = [fold(op, flat[j * w:(j + 1) * w], init) for j in range(min(2 ** lv, cap))]
        j = int(rng.integers(len(nodes)))
        m.close(tree[lv], nodes, 'level', lv, **tol)
        m.close(tree[lv - h], nodes, 'level-from-the-end', lv - h, **tol)
        m.close(tree[lv, j], nodes[j], 'node', lv, j, **tol)
        m.close(tree[lv, 1:], nodes[1:], 'nodes-of-a-level', lv, **tol)
        m.ev('levels')
        m.nontrivial(kind, cap, how)
    if cap > 1:
        a = int(rng.integers(1, cap))
        m.raises(IndexError, lambda: tree.partial_reduce(a, a), 'empty-range-refused')
    for bad in (tree.height, -tree.height - 1, (0, 0, 0), 'a'):
        m.raises(IndexError, lambda: tree[bad], 'bad-level-refused')
    m.true(type(tree).__name__ in repr(tree), 'printable')
    before = onp.array(tree.values)
    m.raises(IndexError, lambda: tree.set_values(onp.array([0, cap]), onp.array([1., 1.])),
             'out-of-range-write-refused')
    m.raises(IndexError, lambda: tree.set_values(onp.array([-cap - 1]), onp.array([1.])),
             'out-of-range-write-refused')
    m.eq(onp.asarray(tree.values), before, 'refused-write-has-no-effect')
    m.sample(kind=kind, capacity=cap, values=flat[:8])


@scenario(quick=1200, thorough=50000, floor={'cdf-points': 20000, 'boundary-points': 5000})
def inverse_cdf(m):
    """inverse_cdf(u) is the weighted-sampling index: in range, positive weight, and u falls inside
    (or within rounding of) that leaf's slice of the cumulative distribution."""
    rng = m.rng
    cap = int(pick(rng, [1, 2, 3, 4, 5, 6, 7, 9, 16, 17, 33, 100]))
    tree = SumTree(capacity=cap)
    scale = float(pick(rng, [1e-6, 1.0, 1.0, 1e6]))
    flat = rng.random(cap) * scale * (rng.random(cap) < pick(rng, [0.3, 0.7, 1.0]))
    if rng.random() < 0.3:
        flat = onp.full(cap, 0.1) * scale          # 0.1 is not a binary fraction
    if rng.random() < 0.3:
        flat[int(rng.integers(cap)):] = 0.0        # partially filled buffer
    if flat.sum() <= 0:
        flat[int(rng.integers(cap))] = scale
    tree.set_values(onp.arange(cap), flat)
    cum = onp.cumsum(flat)
    total = cum[-1]
    edges = onp.clip(onp.concatenate([[0.0, 1.0, 1 - 1e-16, 1 - 2 ** -53, onp.nextafter(1, 0)],
                                      cum / total, onp.nextafter(cum / total, 0),
                                      onp.nextafter(cum / total, 2)]), 0, 1)
    u = onp.concatenate([edges, rng.random(40)])
    got = tree.inverse_cdf(u)
    m.true(onp.shape(got) == u.shape, 'one-index-per-u', onp.shape(got), u.shape)
    tol = 1e-12
    for ui, g in zip(u, onp.asarray(got)):
        g = int(g)
        m.true(0 <= g < cap, 'index-in-range', f'u={ui!r} idx={g} capacity={cap}', flat)
        m.true(flat[g] > 0, 'positive-weight-only', f'u={ui!r} idx={g}', flat)
        lo = (cum[g] - flat[g]) / total
        hi = cum[g] / total
        m.true(lo - tol <= ui <= hi + tol, 'inverse-of-the-cdf', f'u={ui!r} idx={g} [{lo},{hi}]', flat)
    m.ev('cdf-points', len(u))
    m.ev('boundary-points', len(edges))
    j = int(rng.integers(len(u)))
    m.eq(int(tree.inverse_cdf(float(u[j]))), int(got[j]), 'scalar-agrees-with-batch')
    m.eq([int(x) for x in tree.inverse_cdf([float(x) for x in u[:5]])], [int(x) for x in got[:5]],
         'list-agrees-with-batch')
    m.raises(ValueError, lambda: tree.inverse_cdf(onp.array([0.5, 1.0 + 1e-9])), 'u-above-one-refused')
    m.raises(ValueError, lambda: tree.inverse_cdf(-1e-9), 'u-below-zero-refused')
    m.raises(RuntimeError, lambda: SumTree(capacity=cap).inverse_cdf(0.5), 'empty-tree-refused')
    m.nontrivial(cap, scale, int((flat > 0).sum()))
    m.sample(capacity=cap, values=flat[:6])


@scenario(quick=24, thorough=500, floor={'draws': 50000})
def sampling(m):
    rng = m.rng
    cap = int(pick(rng, [2, 3, 5, 8, 11]))
    seed = int(rng.integers(2 ** 31))
    tree, twin = SumTree(capacity=cap, random_seed=seed), SumTree(capacity=cap, random_seed=seed)
    flat = rng.random(cap) * (rng.random(cap) < 0.7)
    flat[int(rng.integers(cap))] = 1.0
    for t in (tree, twin):
        t.set_values(..., rng.random(cap) if t is None else flat)
    N = 6000
    s = tree.sample(N)
    m.eq(onp.asarray(twin.sample(N)), onp.asarray(s), 'seeded-sampling-is-reproducible')
    tree.random_seed = seed
    m.eq(onp.asarray(tree.sample(N)), onp.asarray(s), 're-seeding-restarts-the-stream')
    cnt = onp.bincount(onp.asarray(s), minlength=cap)
    m.eq(len(cnt), cap, 'index-in-range')
    p = flat / flat.sum()
    m.true(onp.all(onp.abs(cnt - N * p) <= 6.5 * onp.sqrt(N * p * (1 - p)) + 1e-9),
           'proportional-sampling', cnt, N * p)
    m.ev('draws', N)
    for bad in (0, -1, 1.5):
        m.raises(TypeError, lambda: tree.sample(bad), 'bad-sample-size-refused')
    m.nontrivial(cap, int((flat > 0).sum()))
    m.sample(values=flat, counts=cnt)


@scenario(quick=24, thorough=600, floor={'large-writes': 600, 'large-ranges': 8000, 'large-lookups': 100000})
def large(m):
    """Realistic sizes: hundreds to thousands of leaves, many small writes, all kinds of ranges and lookups."""
    rng = m.rng
    kind = ['sum', 'sum', 'min', 'max'][m.index % 4]
    make, op, init = KINDS[kind]
    cap = int(pick(rng, [127, 128, 129, 255, 257, 1000, 1024, 1025, 4095, 5000, 40000, 70000]))
    tree, flat = make(cap), onp.full(cap, init)
    for _ in range(30):
        k = int(pick(rng, [1, 2, 7, 64, cap // 2, cap]))
        ids = rng.integers(-cap, cap, k) if rng.random() < 0.5 else rng.integers(0, cap, k)
        ids = onp.unique(ids % cap)
        rng.shuffle(ids)
        v = rng.random(len(ids)) * 10. ** rng.uniform(-3, 3) if kind == 'sum' else rng.standard_normal(len(ids)) * 100
        tree.set_values(ids, v)
        flat[ids] = v
        m.ev('large-writes')
        m.true(onp.array_equal(onp.asarray(tree.values), flat), 'leaves')
        m.close(tree.root_value, op.reduce(flat), 'root', rtol=1e-9)
    A = rng.integers(0, cap, 300)
    B = onp.minimum(cap, A + 1 + onp.asarray(rng.integers(0, cap, 300) * rng.random(300), 'int64'))
    edge = rng.integers(0, 4, 300)
    A = onp.where(edge == 0, 0, onp.where(edge == 1, cap - 1, A))
    B = onp.where(edge == 1, cap, B)
    B = onp.where(edge == 2, cap, B)
    want = onp.array([op.reduce(flat[a:b]) for a, b in zip(A, B)])
    m.close(tree.partial_reduce(A, B), want, 'partial-reduce-batch', rtol=1e-9, atol=1e-12)
    for a, b, w in zip(A[:40], B[:40], want):
        m.close(onp.ravel(tree.partial_reduce(int(a), int(b))), [w], 'partial-reduce', a, b, rtol=1e-9, atol=1e-12)
    m.ev('large-ranges', 340)
    if kind == 'sum':
        flat[rng.random(cap) < 0.3] = 0.0
        flat[0] += 1.0
        tree.set_values(..., flat)
        cum = onp.cumsum(flat) / flat.sum()
        u = onp.concatenate([rng.random(9000), onp.clip(cum[rng.integers(0, cap, 1000)] + rng.normal(0, 1e-9, 1000), 0, 1)])
        g = onp.asarray(tree.inverse_cdf(u))
        m.true(onp.all((g >= 0) & (g < cap)), 'index-in-range')
        m.true(onp.all(flat[g] > 0), 'positive-weight-only')
        lo = cum[g] - flat[g] / flat.sum()
        m.true(onp.all((lo - 1e-9 <= u) & (u <= cum[g] + 1e-9)), 'inverse-of-the-cdf')
        m.ev('large-lookups', len(u))
    m.nontrivial(kind, cap)
    m.sample(kind=kind, capacity=cap, root=float(tree.root_value))
