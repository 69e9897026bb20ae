"""C03: transition batches keep every field of every transition through (un)batching."""
import jax
import numpy as onp

import coax
from coax.reward_tracing import TransitionBatch
from vmon import scenario
from vmon.gen import OBS_KINDS, pick, tagged_obs, zero_or, batch1_equal

FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W', 'idx', 'extra_info')


def rec(rng, okind, akind, tag, gamma, nxt, extra, rdim):
    r = dict(s=tagged_obs(rng, okind, zero_or(rng, tag)), a=tagged_obs(rng, akind, zero_or(rng, tag + 10000)),
             logp=-float(rng.random()) * pick(rng, [0, 1, 1, 30]),
             r=float(pick(rng, [0, rng.standard_normal(), 1e4 * rng.standard_normal()])) if rdim == 0 else rng.standard_normal(rdim),
             done=bool(rng.random() < 0.4), gamma=gamma, w=float(pick(rng, [1, rng.random() * 5 + 0.01, 1e-4, 1e3])),
             idx=int(pick(rng, [tag, tag, tag, 0])))
    if nxt:
        r.update(s_next=tagged_obs(rng, okind, zero_or(rng, tag + 20000)),
                 a_next=tagged_obs(rng, akind, zero_or(rng, tag + 30000)), logp_next=-float(rng.random()) * pick(rng, [0, 1, 1, 30]))
    if extra:
        r['extra_info'] = {'states': tuple(tagged_obs(rng, okind, zero_or(rng, tag + 40000 + k)) for k in range(3)),
                           'n': onp.asarray(tag)}
    return r


def check_single(m, got, want):
    m.ev('singles')
    m.eq(int(got.batch_size), 1, 'batch-size-one')
    batch1_equal(m, got.S, want['s'], 'S')
    batch1_equal(m, got.A, want['a'], 'A')
    m.close(got.logP, [want['logp']], 'logP', rtol=1e-12)
    m.close(got.Rn, onp.expand_dims(want['r'], 0), 'Rn', rtol=1e-12)
    m.close(got.In, [want['gamma'] * (not want['done'])], 'In', rtol=1e-12)
    m.close(got.W, [want['w']], 'W', rtol=1e-12)
    m.eq(int(onp.asarray(got.idx)[0]), want['idx'], 'idx')
    for f, k in (('S_next', 's_next'), ('A_next', 'a_next'), ('extra_info', 'extra_info')):
        if k in want:
            batch1_equal(m, getattr(got, f), want[k], f)
        else:
            m.true(getattr(got, f) is None, f + '-absent')
    if 'logp_next' in want:
        m.close(got.logP_next, [want['logp_next']], 'logP_next', rtol=1e-12)
    else:
        m.true(got.logP_next is None, 'logP_next-absent')


@scenario(quick=700, thorough=25000, floor={'singles': 3000, 'chunks': 500, 'copies': 300})
def batching(m):
    rng = m.rng
    okind, akind = pick(rng, OBS_KINDS), pick(rng, ['int', 'vec', 'dict'])
    size = int(pick(rng, [1, 1, 2, 3, 4, 7, 8, 15, 16, 33, int(rng.integers(1, 70))]))
    gamma = float(pick(rng, [0, 0.5, 0.99, 1, rng.random()]))
    nxt, extra, rdim = bool(rng.random() < .7), bool(rng.random() < .3), int(pick(rng, [0, 0, 0, 2]))
    recs = [rec(rng, okind, akind, i + 1, gamma, nxt, extra, rdim) for i in range(size)]
    singles = [TransitionBatch.from_single(**r) for r in recs]
    for tb, r in zip(singles, recs):
        check_single(m, tb, r)
    batch = jax.tree_util.tree_map(lambda *x: onp.concatenate(x, axis=0), *singles)
    m.true(isinstance(batch, TransitionBatch), 'pytree-map-returns-a-batch', type(batch))
    m.eq(int(batch.batch_size), size, 'batch-size')
    m.log('batch', okind, akind, size, gamma, nxt, extra)

    # batch -> singles
    back = list(batch.to_singles())
    m.eq(len(back), size, 'to-singles-count')
    for tb, r in zip(back, recs):
        check_single(m, tb, r)

    # power-of-two chunks
    chunks, pos = list(coax.utils.chunks_pow2(batch)), 0
    for c in chunks:
        n = int(c.batch_size)
        m.ev('chunks')
        m.true(n > 0 and n & (n - 1) == 0, 'chunk-size-is-power-of-two', n)
        for tb, r in zip(c.to_singles(), recs[pos:pos + n]):
            check_single(m, tb, r)
        pos += n
    m.eq(pos, size, 'chunks-conserve-transitions')
    m.true(len({int(c.batch_size) for c in chunks}) == len(chunks), 'chunks-are-maximal')

    # views of the container agree
    m.eq(tuple(k for k, _ in batch.items()), FIELDS, 'field-order')
    for i, (k, v) in enumerate(batch.items()):
        m.true(getattr(batch, k) is v and batch[i] is v, 'container-views-agree', k)
    m.true(all(a is b for a, b in zip(batch, [getattr(batch, k) for k in FIELDS])), 'iteration-order')

    # identity of pytree round trip, copies, equality
    leaves, td = jax.tree_util.tree_flatten(batch)
    again = jax.tree_util.tree_unflatten(td, leaves)
    m.true(again == batch, 'pytree-roundtrip-equal')
    cp, dcp = batch.copy(), batch.copy(deep=True)
    m.true(cp == batch and dcp == batch, 'copies-are-equal')
    m.ev('copies', 2)
    before = [onp.array(x) for x in jax.tree_util.tree_leaves(batch)]
    for x in jax.tree_util.tree_leaves(dcp):
        x += 1
    for x, y in zip(before, jax.tree_util.tree_leaves(batch)):
        m.eq(onp.asarray(y), x, 'deep-copy-is-independent')
    cp.W = onp.asarray(cp.W) * 2 + 1
    cp.idx = onp.asarray(cp.idx) + 1
    for x, y in zip(before, jax.tree_util.tree_leaves(batch)):
        m.eq(onp.asarray(y), x, 'reassigning-a-field-of-a-copy-is-independent')
    m.true(not (cp == batch), 'equality-sees-differences')
    # relabelling a single taken out of the batch leaves the batch alone
    for tb in batch.to_singles():
        tb.idx = onp.asarray([-1])
        tb.W = onp.asarray([123.])
    for x, y in zip(before, jax.tree_util.tree_leaves(batch)):
        m.eq(onp.asarray(y), x, 'singles-are-detached-from-the-batch')
    m.nontrivial(okind, akind, size, nxt, extra, rdim, gamma)
    m.sample(obs=okind, act=akind, size=size, chunks=[int(c.batch_size) for c in chunks])


@scenario(quick=60, thorough=2000, floor={'rejects': 200})
def validation(m):
    rng = m.rng
    ok = dict(s=0, a=1, logp=-0.5, r=1.0, done=False, gamma=0.9)
    tb = TransitionBatch.from_single(**ok)
    m.close(tb.In, [0.9], 'In')
    m.eq(onp.asarray(tb.W, dtype='float64'), onp.ones(1), 'default-weight-is-one')
    for bad in (dict(logp=float(rng.random() + 1e-6)), dict(gamma=1 + float(rng.random()) + 1e-6),
                dict(gamma=-float(rng.random()) - 1e-6), dict(done=1), dict(w=0.0),
                dict(w=-float(rng.random())), dict(r='x'), dict(logp_next=0.5),
                dict(logp=onp.array([-1.0, 0.1])), dict(gamma=None)):
        m.raises(TypeError, lambda: TransitionBatch.from_single(**{**ok, **bad}), 'bad-input-refused',
                 bad)
        m.ev('rejects')


@scenario(quick=8, thorough=150, floor={'large-rows': 50000})
def large_batches(m):
    """sizes beyond small integer types; default ids and weights"""
    rng = m.rng
    size = [130, 257, 1000, 33000, 70000, 4097, 65536, int(rng.integers(100, 5000))][m.index % 8]
    S, A, R = onp.arange(size) * 3, rng.normal(size=(size, 2)), rng.normal(size=size)
    tb = TransitionBatch(S=S, A=A, logP=-onp.abs(R), Rn=R, In=onp.full(size, 0.9), S_next=S + 1)
    m.eq(onp.asarray(tb.idx, 'int64'), onp.arange(size), 'default-ids-are-distinct')
    m.eq(onp.asarray(tb.W, 'float64'), onp.ones(size), 'default-weight-is-one')
    chunks = list(coax.utils.chunks_pow2(tb))
    m.eq(sum(int(c.batch_size) for c in chunks), size, 'chunks-conserve-transitions')
    for name, want in (('S', S), ('A', A), ('Rn', R), ('logP', -onp.abs(R)), ('S_next', S + 1), ('idx', onp.arange(size))):
        m.eq(onp.concatenate([onp.asarray(getattr(c, name)) for c in chunks]), want, 'chunks-keep-rows', name)
    m.true(all(int(c.batch_size) & (int(c.batch_size) - 1) == 0 for c in chunks), 'chunk-size-is-power-of-two')
    if size <= 5000:
        singles = list(tb.to_singles())
        m.eq(len(singles), size, 'to-singles-count')
        for name, want in (('S', S), ('A', A), ('Rn', R), ('S_next', S + 1), ('idx', onp.arange(size))):
            m.eq(onp.concatenate([onp.asarray(getattr(c, name)) for c in singles]), want, 'singles-keep-rows', name)
    m.ev('large-rows', size)
    m.nontrivial(size)
    m.sample(size=size, chunks=[int(c.batch_size) for c in chunks])
