"""C05: prioritized replay: ring contents, priorities, importance weights, live-only updates."""
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import OBS_KINDS, pick
from vmon.tb import flat, make, verify


EPS = [1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]


def strip_w(tb):
    """The stored weight is checked separately (sampling multiplies it)."""
    tb = tb.copy()
    tb.W = onp.asarray([1.0 + int(t) % 4 for t in onp.asarray(tb.A)])
    return tb


class Ref:
    def __init__(self, cap, alpha, beta, eps):
        self.cap, self.alpha, self.beta, self.eps = cap, alpha, beta, eps
        self.clear()

    def clear(self):
        self.slots, self.next = {}, 0       # id -> [tag, raw magnitude |A|+eps at write time]

    def add(self, tags, adv):
        for t, a in zip(tags, adv):
            self.slots[self.next] = [t, abs(float(a)) + self.eps]
            self.next += 1
            self.slots.pop(self.next - 1 - self.cap, None)

    def prio(self, i):
        return self.slots[i][1] ** self.alpha


def check_sample(m, ref, okind, s, k):
    m.eq(int(s.batch_size), k, 'sample-size')
    ids = [int(i) for i in onp.asarray(s.idx)]
    for i in ids:
        m.true(i in ref.slots, 'only-live-transitions-are-sampled', i, sorted(ref.slots))
    plain = strip_w(s)
    for j, i in enumerate(ids):
        verify(m, okind, plain, j, ref.slots[i][0], i, 'sample')
    # importance weights: w_i = (N p_i)^-beta / max_j (N p_j)^-beta, times the stored weight
    p = onp.array([ref.prio(i) for i in ids])
    w = p ** -ref.beta
    w = w / w.max()
    stored = onp.array([1.0 + ref.slots[i][0] % 4 for i in ids])
    m.close(onp.asarray(s.W), w * stored, 'importance-weights', f'ids={ids}', rtol=5e-4, atol=1e-7)
    m.ev('weights-compared', k)
    return ids


@scenario(quick=500, thorough=20000, floor={'adds': 1500, 'samples': 1200, 'updates': 500,
                                            'stale-updates': 100, 'alpha-changes': 50,
                                            'conflicting-updates': 20, 'clears': 20})
def histories(m):
    rng = m.rng
    okind = pick(rng, OBS_KINDS)
    cap = int(pick(rng, [1, 2, 3, 4, 5, 7, 8, 12]))
    alpha, beta = float(rng.uniform(0.2, 1.5)), float(rng.uniform(0.2, 1.5))
    eps = float(pick(rng, EPS))
    seed = int(rng.integers(2 ** 31))
    P = coax.experience_replay.PrioritizedReplayBuffer
    buf = P(capacity=cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=seed)
    twin = P(capacity=cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=seed)
    other = P(capacity=cap + 1)
    ref = Ref(cap, alpha, beta, eps)
    tag, last, seen = 0, None, []
    m.log('PrioritizedReplayBuffer', cap, alpha, beta, eps, okind)
    for _ in range(int(rng.integers(5, 40))):
        op = pick(rng, ['add', 'add', 'add', 'sample', 'sample', 'update', 'update', 'stale', 'conflict',
                        'alpha', 'beta', 'eps', 'clear', 'readd'])
        if op == 'clear' and rng.random() < 0.7:
            op = 'add'
        if op in ('add', 'readd'):
            if op == 'readd' and last is not None:
                tags, tb = last
            else:
                n = int(pick(rng, [1, 1, 1, 2, 3, cap, cap + 1, 2 * cap + 1]))
                tags = list(range(tag + 1, tag + n + 1))
                tag += n
                tb = make(rng, okind, tags)
            adv = rng.standard_normal(len(tags)) * pick(rng, [0.0, 1e-4, 0.1, 1.0, 10.0, 1e4])
            buf.add(tb, adv)
            twin.add(make(rng, okind, tags), adv.copy())
            if rng.random() < 0.4:
                other.add(tb, adv)
            ref.add(tags, adv)
            last = (tags, tb)
            m.log('add', tags, adv)
            m.ev('adds')
        elif op == 'sample' and ref.slots:
            pass
        elif op == 'update' and ref.slots:
            ids = [pick(rng, sorted(ref.slots)) for _ in range(int(rng.integers(1, 5)))]
            val = {i: float(rng.standard_normal() * pick(rng, [0, 1e-4, 1, 20, 1e4])) for i in ids}
            adv = onp.array([val[i] for i in ids])
            for b in (buf, twin):
                b.update(onp.array(ids), adv)
            for i in ids:
                ref.slots[i][1] = abs(val[i]) + ref.eps
            m.log('update', ids, adv)
            m.ev('updates')
        elif op == 'stale' and ref.next > cap:
            # identifiers whose transition was overwritten: the newcomer keeps its own priority
            ids = [int(rng.integers(0, ref.next - cap)) for _ in range(int(rng.integers(1, 4)))]
            adv = rng.standard_normal(len(ids)) * 50
            for b in (buf, twin):
                b.update(onp.array(ids), adv)
            m.log('stale update', ids, adv)
            m.ev('stale-updates')
        elif op == 'conflict' and ref.next > cap:
            # one call carries a live identifier and an overwritten one of the same ring slot
            i = pick(rng, sorted(ref.slots))
            old = i - cap
            if old < 0:
                continue
            v = float(rng.standard_normal() * 5)
            ids, adv = onp.array([i, old]), onp.array([v, 99.0])
            if rng.random() < 0.3:
                ids, adv = ids[::-1].copy(), adv[::-1].copy()
            for b in (buf, twin):
                b.update(ids, adv)
            ref.slots[i][1] = abs(v) + ref.eps
            m.log('conflicting update', ids, adv)
            m.ev('conflicting-updates')
        elif op == 'alpha':
            new = float(rng.uniform(0.2, 1.5))
            buf.alpha = new
            twin.alpha = new
            m.close(buf.alpha, new, 'alpha-is-set', rtol=0.02)   # documented-in-code 1% no-op band
            ref.alpha = float(buf.alpha)
            m.log('alpha', new)
            m.ev('alpha-changes')
        elif op == 'beta':
            ref.beta = float(rng.uniform(0.2, 1.5))
            buf.beta = twin.beta = ref.beta
            m.eq(buf.beta, ref.beta, 'beta-is-set')
        elif op == 'eps':
            ref.eps = float(pick(rng, EPS))
            buf.epsilon = twin.epsilon = ref.eps
            m.eq(buf.epsilon, ref.eps, 'epsilon-is-set')
        elif op == 'clear':
            buf.clear()
            twin.clear()
            ref.clear()
            last = None
            m.ev('clears')
        m.eq(len(buf), len(ref.slots), 'length')
        m.eq(bool(buf), bool(ref.slots), 'truthiness')
        stored = sorted(((int(onp.asarray(tb.idx)[0]), tb) for tb in buf), key=lambda x: x[0])
        m.eq([i for i, _ in stored], sorted(ref.slots), 'holds-exactly-the-most-recent')
        for i, tb in stored:
            verify(m, okind, tb, 0, ref.slots[i][0], i, 'stored')
        if ref.slots:
            k = int(pick(rng, [1, 4, 4 * cap]))
            s = buf.sample(batch_size=k)
            ids = check_sample(m, ref, okind, s, k)
            m.eq([int(i) for i in onp.asarray(twin.sample(batch_size=k).idx)], ids,
                 'same-seed-same-history-same-sample')
            m.ev('samples')
            for leaf in (s.W, s.Rn, s.idx, s.logP):
                if isinstance(leaf, onp.ndarray) and leaf.flags.writeable:
                    leaf += 77
        m.nontrivial(okind, cap, len(ref.slots), op)
    m.raises(TypeError, lambda: buf.add('x', onp.ones(1)), 'non-batch-refused')
    for attr in ('alpha', 'beta', 'epsilon'):
        m.raises(TypeError, lambda: setattr(buf, attr, pick(rng, [0.0, -1.0, 'a'])),
                 'bad-hyperparameter-refused')
    m.sample(capacity=cap, alpha=ref.alpha, beta=ref.beta, live=sorted(ref.slots)[:6])


@scenario(quick=32, thorough=600, floor={'draws': 50000})
def frequencies(m):
    """Observed sampling frequencies match (|A|+eps)^alpha / sum after a mixed history."""
    rng = m.rng
    cap = int(pick(rng, [2, 3, 5, 6, 8]))
    alpha, eps = float(rng.uniform(0.3, 1.2)), 0.05
    buf = coax.experience_replay.PrioritizedReplayBuffer(
        capacity=cap, alpha=alpha, beta=1.0, epsilon=eps, random_seed=int(rng.integers(2 ** 31)))
    ref = Ref(cap, alpha, 1.0, eps)
    n_add = int(rng.integers(1, 3 * cap))
    for t in range(1, n_add + 1):
        adv = rng.standard_normal(1) * 2
        buf.add(make(rng, 'int', [t]), adv)
        ref.add([t], adv)
        if rng.random() < 0.4:
            i = pick(rng, sorted(ref.slots))
            v = float(rng.standard_normal() * 2)
            buf.update(onp.array([i]), onp.array([v]))
            ref.slots[i][1] = abs(v) + eps
    if rng.random() < 0.5:
        buf.alpha = float(rng.uniform(0.3, 1.2))
        ref.alpha = float(buf.alpha)
    N = 4000
    s = buf.sample(batch_size=N)
    ids, cnt = onp.unique(onp.asarray(s.idx), return_counts=True)
    m.ev('draws', N)
    live = sorted(ref.slots)
    m.true(set(ids.tolist()) <= set(live), 'only-live-transitions-are-sampled')
    pr = onp.array([ref.prio(i) for i in live])
    pr = pr / pr.sum()
    obs = onp.array([dict(zip(ids.tolist(), cnt.tolist())).get(i, 0) for i in live])
    sd = onp.sqrt(N * pr * (1 - pr)) + 1.0
    m.true(onp.all(onp.abs(obs - N * pr) < 6.5 * sd), 'sampling-frequencies', obs, N * pr)
    m.nontrivial(cap, n_add)
    m.sample(capacity=cap, expected=N * pr, observed=obs)


@scenario(quick=8, thorough=80, floor={'long-adds': 200000, 'long-updates': 2000})
def long_history(m):
    """Realistic sizes: thousands of slots and identifiers past 2**16 keep their own priorities."""
    rng = m.rng
    cap = int(pick(rng, [700, 1024, 4000, 9001]))
    total = int(pick(rng, [2 * cap + 5, 40000, 70000, 70000]))
    alpha, beta, eps = float(rng.uniform(0.3, 1.2)), float(rng.uniform(0.3, 1.2)), float(pick(rng, EPS))
    buf = coax.experience_replay.PrioritizedReplayBuffer(
        capacity=cap, alpha=alpha, beta=beta, epsilon=eps, random_seed=int(rng.integers(2 ** 31)))
    mag = onp.zeros(total)
    done = 0

    def magnitude(adv):
        return onp.abs(adv) + eps

    while done < total:
        n = int(min(total - done, pick(rng, [1, 50, 500])))
        adv = rng.standard_normal(n) * 3
        buf.add(flat(done, n), adv)
        mag[done:done + n] = magnitude(adv)
        done += n
        if rng.random() < 0.2 and done > cap:
            ids = onp.unique(rng.integers(max(0, done - 3 * cap), done, size=40))   # live and stale
            rng.shuffle(ids)
            adv = rng.standard_normal(len(ids)) * 30
            buf.update(ids, adv)
            ok = ids >= done - cap
            mag[ids[ok]] = magnitude(adv[ok])
            m.ev('long-updates', len(ids))
    m.ev('long-adds', total)
    if rng.random() < 0.5:
        buf.alpha = float(rng.uniform(0.3, 1.2))
        alpha = float(buf.alpha)
    m.eq(len(buf), cap, 'length')
    ids = onp.sort(onp.concatenate([onp.asarray(tb.idx) for tb in buf]))
    m.true(onp.array_equal(ids, onp.arange(total - cap, total)), 'holds-exactly-the-most-recent', ids[:3], ids[-3:])
    pos = []
    for _ in range(6):
        s = buf.sample(batch_size=1500)
        i = onp.asarray(s.idx)
        m.true(onp.all((i >= total - cap) & (i < total)), 'only-live-transitions-are-sampled')
        m.close(onp.asarray(s.Rn), i * 0.5, 'sample:Rn')
        m.close(onp.asarray(s.S_next), i + 0.25, 'sample:S_next', rtol=1e-6)
        w = (mag[i] ** alpha) ** -beta
        m.close(onp.asarray(s.W), w / w.max() * (1. + i % 4), 'importance-weights', rtol=1e-3, atol=1e-7)
        pos.append(i)
    i = onp.concatenate(pos)
    pr = mag[total - cap:] ** alpha
    pr = pr / pr.sum()
    cut = onp.searchsorted(onp.cumsum(pr), onp.arange(1, 16) / 16)
    edges = onp.concatenate([[0], cut, [cap]])
    want = onp.array([pr[a:b].sum() for a, b in zip(edges[:-1], edges[1:])])
    got = onp.histogram(i - (total - cap), bins=onp.concatenate([edges[:-1], [cap]]))[0]
    z = (got - len(i) * want) / onp.sqrt(len(i) * want + 1)
    m.true(onp.abs(z).max() < 6.5, 'sampling-frequencies-over-the-whole-ring', got, len(i) * want)
    m.nontrivial(cap, total)
    m.sample(capacity=cap, added=total, alpha=alpha, beta=beta, observed=got)
