"""C04: uniform replay buffer: a ring of the most recent transitions, sampled fairly."""
import random

import numpy as onp

import coax
from vmon import scenario
from vmon.gen import OBS_KINDS, pick
from vmon.tb import flat, make, verify


@scenario(quick=500, thorough=20000, floor={'adds': 1500, 'samples': 800, 'evictions': 500,
                                            'clears': 30, 'twin-samples': 200, 're-adds': 50})
def histories(m):
    rng = m.rng
    okind = pick(rng, OBS_KINDS)
    cap = int(pick(rng, [1, 2, 3, 5, 8, 13, 40]))
    seed = int(rng.integers(2 ** 31))
    buf = coax.experience_replay.SimpleReplayBuffer(capacity=cap, random_seed=seed)
    twin = coax.experience_replay.SimpleReplayBuffer(capacity=cap, random_seed=seed)
    other = coax.experience_replay.SimpleReplayBuffer(capacity=cap + 3, random_seed=seed + 1)
    ref, nxt, tag, last = [], 0, 0, None
    m.eq(buf.capacity, cap, 'capacity')
    m.log('SimpleReplayBuffer', cap, okind)
    for _ in range(int(rng.integers(5, 40))):
        op = pick(rng, ['add', 'add', 'add', 'sample', 'sample', 'iter', 'tamper', 'clear', 'readd'])
        if op == 'clear' and rng.random() < 0.7:
            op = 'add'
        if op in ('add', 'readd'):
            if op == 'readd' and last is not None:
                tags, tb = last          # the very same object once more
                m.ev('re-adds')
            else:
                n = int(pick(rng, [1, 1, 1, 2, 3, cap, cap + 2]))
                tags = list(range(tag + 1, tag + n + 1))
                tag += n
                tb = make(rng, okind, tags)
            buf.add(tb)
            twin.add(make(rng, okind, tags))
            if rng.random() < 0.5:
                other.add(tb)            # the same object goes into an unrelated buffer
            last = (tags, tb)
            for t in tags:
                ref.append((t, nxt))
                nxt += 1
            m.ev('evictions', max(0, len(ref) - cap))
            ref = ref[-cap:]
            m.log('add', tags)
            m.ev('adds')
        elif op == 'sample' and ref:
            k = int(pick(rng, [1, len(ref), int(rng.integers(1, len(ref) + 1))]))
            if rng.random() < 0.5:
                random.seed(int(rng.integers(1000)))    # somebody else uses the global generator
            s = buf.sample(batch_size=k)
            m.eq(int(s.batch_size), k, 'sample-size')
            ids = [int(i) for i in onp.asarray(s.idx)]
            m.eq(len(set(ids)), k, 'sampled-without-replacement')
            by_id = {i: t for t, i in ref}
            for j, i in enumerate(ids):
                m.true(i in by_id, 'only-stored-transitions-are-sampled', i)
                verify(m, okind, s, j, by_id[i], i, 'sample')
            random.seed(int(rng.integers(1000)))
            s2 = twin.sample(batch_size=k)
            m.eq([int(i) for i in onp.asarray(s2.idx)], ids, 'same-seed-same-history-same-sample')
            m.ev('samples')
            m.ev('twin-samples')
            # scribbling on a sample must not reach the buffer
            for leaf in (s.W, s.Rn, s.idx, s.logP):
                if isinstance(leaf, onp.ndarray) and leaf.flags.writeable:
                    leaf += 77
        elif op == 'tamper':
            random.random()
        elif op == 'clear':
            buf.clear()
            twin.clear()
            ref, nxt, last = [], 0, None
            m.ev('clears')
        m.eq(len(buf), len(ref), 'length')
        m.eq(bool(buf), bool(ref), 'truthiness')
        m.true(len(buf) <= cap, 'never-exceeds-capacity')
        stored = list(buf)
        m.eq(len(stored), len(ref), 'iteration-length')
        for tb, (t, i) in zip(stored, ref):
            m.eq(int(tb.batch_size), 1, 'iterates-singles')
            verify(m, okind, tb, 0, t, i, 'stored')
        m.nontrivial(okind, cap, len(ref), op)
    m.raises((ValueError, TypeError), lambda: buf.sample(len(ref) + 1), 'oversampling-refused')
    m.raises(TypeError, lambda: buf.add('x'), 'non-batch-refused')
    m.sample(capacity=cap, obs=okind, stored=ref[:5], last_id=nxt)


@scenario(quick=16, thorough=300, floor={'draws': 10000})
def fairness(m):
    """Every stored transition is equally likely, wherever it sits in the ring."""
    rng = m.rng
    cap = int(pick(rng, [3, 5, 8]))
    n_add = cap + int(rng.integers(0, 6))
    buf = coax.experience_replay.SimpleReplayBuffer(capacity=cap, random_seed=int(rng.integers(2 ** 31)))
    for t in range(1, n_add + 1):
        buf.add(make(rng, 'int', [t]))
    k, rounds = int(rng.integers(1, cap)), 1500
    count = onp.zeros(n_add)
    for _ in range(rounds):
        for i in onp.asarray(buf.sample(batch_size=k).idx):
            count[int(i)] += 1
    live = count[n_add - cap:]
    m.ev('draws', rounds * k)
    m.eq(float(count[:n_add - cap].sum()), 0.0, 'evicted-never-sampled')
    p = k / cap
    z = (live - rounds * p) / onp.sqrt(rounds * p * (1 - p))
    m.true(onp.abs(z).max() < 6.5, 'uniform', live, p)
    m.nontrivial(cap, n_add, k)
    m.sample(capacity=cap, added=n_add, k=k, counts=live)


@scenario(quick=8, thorough=80, floor={'long-adds': 200000, 'long-draws': 20000})
def long_history(m):
    """Realistic sizes: thousands of slots, tens of thousands of additions, identifiers past 2**16."""
    rng = m.rng
    cap = int(pick(rng, [1500, 6000, 9001, 17000]))
    total = int(pick(rng, [cap, 2 * cap + 17, 70000, 70000]))
    buf = coax.experience_replay.SimpleReplayBuffer(capacity=cap, random_seed=int(rng.integers(2 ** 31)))
    done = 0
    while done < total:
        n = int(min(total - done, pick(rng, [1, 50, 999, 1000])))
        buf.add(flat(done, n))
        done += n
    m.ev('long-adds', total)
    live = min(cap, total)
    m.eq(len(buf), live, 'length')
    ids = onp.concatenate([onp.asarray(tb.idx) for tb in buf])
    m.true(onp.array_equal(ids, onp.arange(total - live, total)), 'holds-exactly-the-most-recent', ids[:3], ids[-3:])
    seen, k, rounds = [], int(pick(rng, [64, 500])), 0
    while sum(map(len, seen)) < 8000:
        s = buf.sample(batch_size=k)
        i = onp.asarray(s.idx)
        m.eq(len(onp.unique(i)), k, 'sampled-without-replacement')
        m.true(onp.all((i >= total - live) & (i < total)), 'only-stored-transitions-are-sampled')
        for f, want in vars(flat(0, 1)).items():
            if f not in ('idx', 'extra_info', '_random_seed') and not f.startswith('__'):
                w = onp.concatenate([onp.asarray(getattr(flat(int(j), 1), f)) for j in i[:8]])
                m.close(onp.asarray(getattr(s, f))[:8], w, 'sample:' + f)
        seen.append(i - (total - live))
        rounds += 1
    pos = onp.concatenate(seen)
    m.ev('long-draws', len(pos))
    bins = onp.bincount(pos * 16 // live, minlength=16)
    width = onp.bincount(onp.arange(live) * 16 // live, minlength=16) / live
    z = (bins - len(pos) * width) / onp.sqrt(len(pos) * width)
    m.true(onp.abs(z).max() < 6.5, 'uniform-over-the-whole-ring', bins)
    m.nontrivial(cap, total, k)
    m.sample(capacity=cap, added=total, draws_per_sixteenth=bins)
