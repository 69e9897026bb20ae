"""C24: workers exchange state, experience and counters with the parameter store without losing or mixing anything.

The actor runtime is replaced by a stand-in for ``ray`` whose actors execute one call at a time on pickled copies of
their arguments (as ray's do) and whose schedule is chosen by the monitor: every remote call and every sleep is a
scheduling point, so one case is one seeded interleaving of rollout workers and learners."""
import collections
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import types

import gymnasium as gym
import numpy as onp

from vmon import scenario
from vmon.core import Skip
from vmon.gen import pick

import coax

real_sleep = time.sleep


class Sched:
    """Cooperative scheduler: of all live threads exactly one runs between two scheduling points."""
    def __init__(self, rng, sticky):
        self.rng, self.sticky = rng, sticky
        self.cv = threading.Condition()
        self.ready, self.running, self.live = set(), None, set()
        self.order, self.errors = [], []
        self.ids = {}

    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, what=''):
        me = self.me()
        if me is None:
            return
        with self.cv:
            self.ready.add(me)
            self.running = None
            self.pick()
            while self.running != me:
                self.cv.wait()
            self.ready.discard(me)
            if len(self.order) > 200000:
                raise RuntimeError('schedule too long')

    def pick(self):
        if self.running is None and self.ready and self.ready >= self.live:
            xs = sorted(self.ready)
            last = self.order[-1] if self.order else None
            nxt = last if last in xs and self.rng.random() < self.sticky else xs[int(self.rng.integers(len(xs)))]
            self.order.append(nxt)
            self.running = nxt
            self.cv.notify_all()

    def run(self, tasks):
        self.live = set(range(len(tasks)))

        def body(i, fn):
            self.ids[threading.get_ident()] = i
            try:
                self.point('start')
                fn()
            except BaseException as e:                      # noqa: B902 - reported to the main thread
                self.errors.append(e)
            finally:
                with self.cv:
                    self.live.discard(i)
                    self.ready.discard(i)
                    if self.running == i:
                        self.running = None
                    self.pick()
                self.ids.pop(threading.get_ident(), None)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(tasks)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise RuntimeError('worker did not terminate')
        if self.errors:
            raise self.errors[0]


CUR = types.SimpleNamespace(sched=None, log=None)


class Ref:
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error


class Method:
    def __init__(self, handle, name):
        self.handle, self.name = handle, name

    def remote(self, *args, **kwargs):
        return self.handle._call(self.name, args, kwargs)


class ActorHandle:
    def __init__(self, obj):
        self._obj = obj
        self._lock = threading.RLock()

    def _call(self, name, args, kwargs):
        if CUR.sched is not None:
            CUR.sched.point(name)
        with self._lock:
            args, kwargs = pickle.loads(pickle.dumps((args, kwargs)))
            out = getattr(self._obj, name)(*args, **kwargs)
            out = pickle.loads(pickle.dumps(out))
            if CUR.log is not None:
                CUR.log.append((CUR.sched.me() if CUR.sched else None, name, args, out))
        return Ref(out)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return Method(self, name)


def fake_ray():
    ray, actor = types.ModuleType('ray'), types.ModuleType('ray.actor')
    actor.ActorHandle = ActorHandle

    def get(x, timeout=None):
        if isinstance(x, (list, tuple)):
            return [get(y) for y in x]
        if x.error is not None:
            raise x.error
        return x.value

    def wait(xs, **kw):
        return list(xs), []

    ray.actor, ray.get, ray.wait = actor, get, wait
    return ray, actor


sys.modules['ray'], sys.modules['ray.actor'] = fake_ray()


def fake_sleep(secs):
    if CUR.sched is not None and CUR.sched.me() is not None:
        CUR.sleeps.append(secs)
        CUR.sched.point('sleep')
    else:
        real_sleep(min(secs, 0.01))


class TagEnv(gym.Env):
    """every observation is unique; the history is remembered"""
    def __init__(self, seed, base, end=0.15):
        self.observation_space = gym.spaces.Box(-1e9, 1e9, (2,), 'float64')
        self.action_space = gym.spaces.Discrete(5)
        self.g, self.n, self.base, self.end = onp.random.default_rng(seed), 0, base, end
        self.hist = []

    def obs(self):
        self.n += 1
        self.s = onp.array([self.base + self.n, self.n], 'float64')
        return self.s

    def reset(self, **kw):
        self.hist.append([])
        return self.obs(), {}

    def step(self, a):
        s = self.s
        r = float(onp.round(self.g.normal(), 4))
        done = bool(self.g.random() < self.end)
        self.hist[-1].append([s, a, r, done])
        return self.obs(), r, done, False, {}


class Pi:
    """behaviour policy whose propensity carries the version of the parameters it acted with"""
    def __init__(self, worker):
        self.worker, self.calls = worker, []

    def __call__(self, s, return_logp=False):
        a = int(s[1] * 7 + self.worker.state['version']) % 5
        logp = -float(self.worker.state['version'] + 1) / 1000
        self.calls.append((float(s[0]), a, logp))
        return (a, logp) if return_logp else a


class W(coax.Worker):
    def __init__(self, seed, base, limit, n=1, end=0.15, **kw):
        self.raw = TagEnv(seed, base, end)
        self.raw.spec = types.SimpleNamespace(
            max_episode_steps=limit, reward_threshold=kw.pop('threshold', None), id='Tag-v0')
        env = gym.wrappers.TimeLimit(self.raw, max_episode_steps=limit)
        self.state = {'version': 0, 'w': onp.zeros(3)}
        self.traced, self.learned, self.sets = [], [], []
        super().__init__(env=env, tracer=coax.reward_tracing.NStep(n, 0.9), **kw)
        self.pi = Pi(self)
        self.raw_end = end

    def get_state(self):
        return self.state

    def set_state(self, state):
        self.sets.append(state['version'])
        self.state = {'version': state['version'], 'w': onp.array(state['w'])}

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        self.traced.append((onp.array(s), a, r, done, logp))
        self.tracer.add(s, a, r, done, logp)
        while self.tracer:
            b = self.tracer.pop()
            self.buffer_add(b, Adv=onp.abs(b.Rn) + 1)

    def learn(self, transition_batch):
        self.learned.append((self.state['version'], transition_batch))
        self.state = {'version': self.state['version'] + 1, 'w': self.state['w'] + transition_batch.Rn.sum()}
        if transition_batch.idx is not None and self.prior:
            self.buffer_update(transition_batch.idx, onp.full(transition_batch.batch_size, 2.0))
        return {'learn/loss': float(self.state['version'])}

    prior = False


def buffer(rng, prioritized, capacity=5000):
    if prioritized:
        return coax.experience_replay.PrioritizedReplayBuffer(capacity, alpha=0.7, beta=0.4,
                                                              random_seed=int(rng.integers(99)))
    return coax.experience_replay.SimpleReplayBuffer(capacity, random_seed=int(rng.integers(99)))


def episodes(w):
    return w.raw.hist


def check_traces(m, w, limit):
    """every step of every episode was traced once, in order, with what really happened"""
    want = []
    for ep in episodes(w):
        for i, (s, a, r, done) in enumerate(ep):
            want.append((s, a, r, done or i + 1 == limit))
    m.eq(len(w.traced), len(want), 'every-step-traced-once')
    m.eq(len(w.pi.calls), len(want), 'one-action-per-step')
    for (s, a, r, d, lp), (s2, a2, r2, d2), (tag, a3, lp3) in zip(w.traced, want, w.pi.calls):
        m.true(onp.array_equal(s, s2) and tag == s2[0], 'traced-state-is-the-one-acted-in', s, s2, tag)
        m.eq((int(a), float(r), bool(d)), (int(a2), float(r2), bool(d2)), 'traced-action-reward-end')
        m.eq((int(a), float(lp)), (a3, lp3), 'traced-propensity-is-the-policy-s')
    for ep in episodes(w):
        m.true(len(ep) and len(ep) <= limit and (ep[-1][3] or len(ep) == limit) and not any(x[3] for x in ep[:-1]),
               'episodes-run-to-their-end', ep)
    m.ev('traced-steps', len(want))


def stored(buf):
    xs = buf._storage if hasattr(buf, '_storage') else buf
    return list(xs)


def contents(m, store, n):
    """tags (first state component) of everything in the store's buffer, via its public iterator"""
    out = []
    for b in iter(store.buffer):
        out.append((float(onp.asarray(b.S)[0, 0]), float(onp.asarray(b.Rn)[0]), float(onp.asarray(b.logP)[0]),
                    int(onp.argmax(onp.asarray(b.A)[0])) if onp.asarray(b.A).ndim == 2 else int(onp.asarray(b.A)[0])))
    return out


def expected_transitions(w, n, limit):
    out = []
    for ep in episodes(w):
        for i, (s, a, r, _) in enumerate(ep):
            rn = sum(0.9 ** k * ep[i + k][2] for k in range(min(n, len(ep) - i)))
            out.append((float(s[0]), rn, a))
    return out


@scenario(quick=96, thorough=6000, floor={'interleavings': 60, 'remote-calls': 4000, 'traced-steps': 1500,
                                          'learns': 200, 'waits': 10, 'switches': 1000})
def distributed_agent(m):
    """several rollout workers and learners around one store, under one seeded interleaving"""
    rng = m.rng
    n = int(rng.integers(1, 4))
    limit = int(rng.integers(2, 15))
    prioritized = bool(rng.random() < 0.5)
    nw, nl = int(rng.integers(1, 4)), int(rng.integers(0, 3))
    max_T = int(rng.integers(10, 80))
    bs = int(pick(rng, [1, 2, 4, 8]))
    warm = pick(rng, [None, 0, 3, 12])
    log = []
    sched = Sched(rng, pick(rng, [0.0, 0.5, 0.9]))
    store = W(1, 0, limit, n, buffer=buffer(rng, prioritized), name='store')
    handle = ActorHandle(store) if rng.random() < 0.8 else store
    remote = isinstance(handle, ActorHandle)
    if not remote:
        nw, nl = 1, min(nl, 1)          # a plain store is not safe for concurrent callers
    ws = [W(10 + i, 1e6 * (i + 1), limit, n, param_store=handle, name=f'w{i}') for i in range(nw)]
    ls = [W(50 + i, 1e8 * (i + 1), limit, n, param_store=handle, buffer_warmup=warm, name=f'l{i}')
          for i in range(nl)]
    for l in ls:
        l.prior = prioritized
    lens = []
    sample = store.buffer.sample

    def recording_sample(batch_size):
        lens.append((len(store.buffer), batch_size))
        return sample(batch_size=batch_size)
    store.buffer.sample = recording_sample
    CUR.sched, CUR.log, CUR.sleeps = sched, log, []
    old_sleep, time.sleep = time.sleep, fake_sleep
    try:
        if remote:
            sched.run([lambda w=w: w.rollout_loop(max_T) for w in ws] +
                      [lambda w=w: w.learn_loop(max_T, batch_size=bs) for w in ls])
        else:
            ws[0].rollout_loop(max_T)
            for l in ls:
                if len(store.buffer) >= max(bs, warm or 0):
                    store.env.T = max_T - 1
                    l.param_store = Stopper(store, 3)
                    l.learn_loop(max_T, batch_size=bs)
    finally:
        time.sleep = old_sleep
        CUR.sched, CUR.log = None, None
        store.buffer.sample = sample
    m.log('workers', nw, 'learners', nl, 'n', n, 'limit', limit, 'max_T', max_T, 'bs', bs, 'warm', warm,
          'prioritized', prioritized, 'remote', remote)

    # experience: exactly once, nothing mixed up
    want = collections.Counter()
    for w in ws:
        check_traces(m, w, limit)
        for tag, rn, a in expected_transitions(w, n, limit):
            want[(tag, round(rn, 4), a)] += 1
    got = collections.Counter((t, round(rn, 4), a) for t, rn, lp, a in contents(m, store, n))
    same = len(got) == len(want) and all(
        abs(g[0] - x[0]) < 1e-9 and abs(g[1] - x[1]) < 2e-3 and g[2] == x[2]
        for g, x in zip(sorted(got.elements()), sorted(want.elements())))
    m.true(same and sum(got.values()) == sum(want.values()), 'experience-arrives-exactly-once',
           sorted(got.elements())[:5], sorted(want.elements())[:5])
    lp = {t: l for t, _, l, _ in contents(m, store, n)}
    for w in ws:
        for tag, a, l in w.pi.calls:
            m.true(abs(lp[tag] - l) < 1e-6, 'stored-propensity', lp[tag], l)
    steps = sum(len(ep) for w in ws for ep in episodes(w))
    m.true(store.buffer_len() == len(store.buffer) == steps, 'buffer-length')

    # counters
    if remote or not nl:
        m.true(0 < store.env.T <= steps, 'global-steps-never-overcount', store.env.T, steps)
    if nw == 1 and (remote or not nl):
        m.eq(store.env.T, steps, 'global-steps')
        lens_ep = [len(ep) for ep in episodes(ws[0])]
        m.true(sum(lens_ep[:-1]) < max_T <= steps, 'rollouts-stop-at-the-limit', lens_ep, max_T)

    # parameters
    if remote:
        version, pushes = 0, 0
        for who, name, args, out in log:
            if name == 'set_state':
                m.true(who is None or who >= nw, 'rollout-workers-do-not-push-parameters')
                version, pushes = args[0]['version'], pushes + 1
            elif name == 'get_state':
                m.eq(out['version'], version, 'pulled-parameters-are-the-current-ones')
        m.eq(store.state['version'], version, 'store-keeps-the-last-pushed-parameters')
        m.eq(pushes, sum(len(l.learned) for l in ls), 'one-push-per-update')
        for i, w in enumerate(ws + ls):
            pulled = [out['version'] for who, name, _, out in log if who == i and name == 'get_state']
            m.eq(w.sets, pulled, 'pulled-parameters-are-used')
        for i, w in enumerate(ws):
            m.eq(len(w.sets), len(episodes(w)), 'one-pull-per-rollout')
            it = iter(w.pi.calls)
            for v, ep in zip(w.sets, episodes(w)):
                for _ in ep:
                    m.true(abs(next(it)[2] + (v + 1) / 1000) < 1e-12, 'rollout-acts-on-the-pulled-parameters')
        for l in ls:
            m.eq([v for v, _ in l.learned], l.sets, 'learner-starts-from-the-pulled-parameters')
        if nl == 1:
            m.eq(store.state['version'], len(ls[0].learned), 'no-update-is-lost')
    for l in ls:
        for _, b in l.learned:
            m.eq(b.batch_size, bs, 'batch-size')
            m.true({float(x) for x in onp.asarray(b.S)[:, 0]} <= {t for t, _, _ in want}, 'learned-from-the-store')
        m.ev('learns', len(l.learned))
    for have, k in lens:
        m.true(k == bs and have >= max(bs, warm or 0), 'warmup-is-respected', have, bs, warm)
    # metrics
    if ls and ls[0].learned and remote:
        got = store.env.get_metrics()
        vs = [v for l in ls for v, _ in l.learned]
        m.close(got['learn/loss'], onp.mean(vs) + 1, 'learner-metrics-arrive')
        m.true('throughput/learn_loop' in got, 'learner-throughput-recorded', got)
    for i, w in enumerate(ws):
        if not episodes(w):
            continue
        got = w.env.get_metrics()
        m.true('throughput/rollout_loop' in got and got['throughput/rollout_loop'] > 0, 'rollout-metrics', got)
        if remote:
            Ts = [args[1] for who, name, args, _ in log if who == i and name == 'push_setattr' and args[0] == 'env.T']
            m.eq(len(Ts), len(episodes(w)), 'steps-reported-once-per-rollout')
            m.eq(got['episode/T_global'], Ts[-1], 'reported-steps-recorded')
    m.ev('remote-calls', len(log))
    m.ev('waits', len(CUR.sleeps))
    m.ev('switches', sum(x != y for x, y in zip(sched.order, sched.order[1:])))
    m.ev('interleavings')
    m.nontrivial(nw, nl, tuple(sched.order[:400]))
    m.sample(workers=nw, learners=nl, steps=steps, schedule=sched.order[:60])


class Stopper:
    """a plain (in-process) store that reports the limit as reached after k updates"""
    def __init__(self, store, k):
        self.store, self.k = store, k

    def __getattr__(self, name):
        f = getattr(self.store, name)
        if name == 'set_state':
            def g(s):
                self.k -= 1
                if self.k <= 0:
                    self.store.env.T = 10 ** 9
                return f(s)
            return g
        return f


@scenario(quick=40, thorough=2000, floor={'delegated-calls': 500})
def delegation(m):
    """local, in-process and remote stores (also in chains) answer like the bare buffer, env and attributes"""
    rng = m.rng
    prioritized = bool(rng.random() < 0.6)
    seed = int(rng.integers(99))

    def mk():
        return coax.experience_replay.PrioritizedReplayBuffer(12, alpha=0.7, beta=0.4, random_seed=seed) \
            if prioritized else coax.experience_replay.SimpleReplayBuffer(12, random_seed=seed)
    ref = mk()
    store = W(1, 0, 5, buffer=mk(), name='store')
    kind = pick(rng, ['local', 'plain', 'remote', 'chain', 'remote-chain'])
    w = store
    if kind in ('plain', 'chain'):
        w = W(2, 0, 5, param_store=store, name='w')
    if kind in ('remote', 'remote-chain'):
        w = W(2, 0, 5, param_store=ActorHandle(store), name='w')
    if kind == 'chain':
        w = W(3, 0, 5, param_store=w, name='x')
    if kind == 'remote-chain':
        w = W(3, 0, 5, param_store=ActorHandle(w), name='x')
    tracer = coax.reward_tracing.NStep(1, 0.9)
    tracer.reset()
    last = None
    acc = collections.OrderedDict()
    for i in range(40):
        op = pick(rng, ['add', 'add', 'sample', 'update', 'len', 'attr', 'metrics', 'default', 'state'])
        m.log(kind, op)
        if op == 'add':
            tracer.add(onp.array([i, 2.0 * i]), int(rng.integers(5)), float(rng.normal()), True)
            b = tracer.pop()
            adv = onp.abs(rng.normal(size=1)) + 0.1
            w.buffer_add(b, Adv=adv) if rng.random() < 0.5 else w.buffer_add(b, adv)
            ref.add(b, Adv=adv) if prioritized else ref.add(b)
        elif op == 'sample' and len(ref) >= 2:
            k = int(rng.integers(1, min(5, len(ref)) + 1))
            got, want = w.buffer_sample(batch_size=k), ref.sample(batch_size=k)
            m.eq(onp.asarray(got.S), onp.asarray(want.S), 'sample-through-the-store', kind)
            m.eq(onp.asarray(got.W), onp.asarray(want.W), 'sample-weights-through-the-store', kind)
            last = (got, want)
        elif op == 'update' and last is not None and prioritized:
            adv = onp.abs(rng.normal(size=last[0].batch_size)) + 0.1
            w.buffer_update(last[0].idx, adv)
            ref.update(last[1].idx, Adv=adv)
        elif op == 'attr':
            name = pick(rng, ['buffer_warmup', 'env.T', 'state', 'name', 'env.spec.max_episode_steps'])
            value = {'buffer_warmup': int(rng.integers(2)), 'env.T': int(rng.integers(99)), 'name': f's{i}',
                     'state': {'version': i, 'w': onp.ones(2)}, 'env.spec.max_episode_steps': i}[name]
            w.push_setattr(name, value)
            got = store
            for part in name.split('.'):
                got = getattr(got, part)
            for x in (got, w.pull_getattr(name)):
                m.true(x == value if name != 'state' else x['version'] == i, 'attribute-set-at-the-store', name, x)
            if kind != 'local' and name == 'name':
                m.true(w.name in ('w', 'x'), 'own-attributes-untouched', w.name)
        elif op == 'default':
            m.eq(w.pull_getattr('nope', 7), 7, 'default-value')
            m.eq(w.pull_getattr('env.nope', None), None, 'default-value-nested')
            m.eq(w.pull_getattr('env.ep', 99), store.env.ep, 'default-value-unused')
            m.raises(AttributeError, lambda: w.pull_getattr('nope'), 'missing-attribute-raises')
        elif op == 'metrics':
            mt = {f'k{int(rng.integers(3))}': float(rng.normal())}
            w.push_metrics(mt)
            for k, v in mt.items():
                acc.setdefault(k, []).append(v)
            got = w.pull_metrics()
            m.eq(set(got), set(acc), 'metrics-through-the-store', kind)
            for k in got:
                m.close(got[k], onp.mean(acc[k]), 'metrics-through-the-store', kind, rtol=1e-9, atol=1e-12)
            got['k0'] = 1e9
            got['zzz'] = 3.
            m.true('zzz' not in w.pull_metrics(), 'pulled-metrics-are-a-copy', kind)
        elif op == 'state':
            if kind == 'local':
                m.raises(AssertionError, w.pull_state, 'store-has-nobody-to-pull-from')
                m.raises(AssertionError, w.push_state, 'store-has-nobody-to-push-to')
            elif not kind.endswith('chain'):
                store.state = {'version': 1000 + i, 'w': onp.full(3, i)}
                w.pull_state()
                m.eq(w.state['version'], 1000 + i, 'pull-state')
                w.state = {'version': 2000 + i, 'w': onp.full(3, 2 * i)}
                w.push_state()
                m.eq((store.state['version'], store.state['w'][0]), (2000 + i, 2 * i), 'push-state')
        m.eq(w.buffer_len(), len(ref), 'length-through-the-store', kind)
        m.eq(len(store.buffer), len(ref), 'length-at-the-store', kind)
        m.ev('delegated-calls')
    m.nontrivial(kind, prioritized, len(ref))
    m.sample(kind=kind, size=len(ref))


@scenario(quick=24, thorough=800, floor={'loops': 12, 'foreign-steps': 10})
def single_worker_loops(m):
    """stopping rules, checked against the history of a single worker"""
    rng = m.rng
    limit = int(rng.integers(1, 12))
    threshold = pick(rng, [None, None, 0.5, -0.5, 1.5, 0, 0.0])
    via = pick(rng, ['argument', 'spec'])
    store = W(1, 0, limit, buffer=buffer(rng, False), name='store')
    w = W(int(rng.integers(999)), 1e6, limit, param_store=pick(rng, [store, ActorHandle(store)]), name='w',
          end=float(rng.uniform(0.05, 0.5)), **({'threshold': threshold} if via == 'spec' else {}))
    T0 = int(pick(rng, [0, 0, 5, 50]))
    store.env.T = T0
    max_T = int(rng.integers(1, 60))
    foreign = []                     # steps another worker reports while this one is in the middle of an episode
    if rng.random() < 0.5:
        acted = w.pi

        def pi(s, return_logp=False):
            if len(foreign) < len(episodes(w)):
                foreign.append(int(rng.integers(0, 4)))
                store.push_setattr('env.T', store.pull_getattr('env.T') + foreign[-1])
            return acted(s, return_logp=return_logp)
        pi.calls = acted.calls
        w.pi = pi
    kw = {'reward_threshold': threshold} if via == 'argument' and threshold is not None else {}
    w.rollout_loop(max_T, **kw)
    check_traces(m, w, limit)
    T, G, cnt, i = T0, 0.0, 0, 0
    th = float('inf') if threshold is None else threshold
    eps = episodes(w)
    while T < max_T and G < th:
        m.true(i < len(eps), 'stopped-too-early', T, max_T, G, th)
        ep = eps[i]
        cnt = min(cnt + 1, 10)
        G += (sum(x[2] for x in ep) - G) / cnt
        T += len(ep) + (foreign[i] if foreign else 0)
        i += 1
        if abs(G - th) < 1e-9:
            raise Skip
    m.eq(i, len(eps), 'stopped-too-late', f'{T} {max_T} {G} {th}')
    m.eq(store.env.T, T, 'global-steps', T0)
    m.ev('loops')
    m.ev('foreign-steps', sum(foreign))
    m.nontrivial(limit, threshold, via, T0, max_T, bool(foreign))
    m.sample(limit=limit, threshold=threshold, T=T, max_T=max_T)


@scenario(quick=12, thorough=200, floor={'constructions': 12})
def construction(m):
    rng = m.rng
    lim = int(rng.integers(3, 30))

    class Minimal(W):
        def __init__(self, env, **kw):
            coax.Worker.__init__(self, env, **kw)

    def env():
        e = TagEnv(1, 0)
        e.spec = types.SimpleNamespace(max_episode_steps=lim, reward_threshold=None, id='x')
        return gym.wrappers.TimeLimit(e, max_episode_steps=lim)
    a, b = env(), coax.wrappers.TrainMonitor(env())
    m.true(isinstance(Minimal(a).env, coax.wrappers.TrainMonitor), 'env-is-monitored')
    m.true(Minimal(a).env.env is a, 'env-is-the-given-one')
    m.true(Minimal(b).env is b, 'monitored-env-is-kept')
    m.eq(Minimal(env).env.spec.max_episode_steps, lim, 'env-factory')
    m.eq(Minimal('CartPole-v1').env.spec.id, 'CartPole-v1', 'env-by-name')
    bare = TagEnv(1, 0)
    m.raises(ValueError, lambda: Minimal(bare), 'episode-limit-required')
    m.raises(TypeError, lambda: Minimal(3), 'env-type-checked')
    x = Minimal(a, name='foo', buffer_warmup=5)
    m.eq((x.name, x.buffer_warmup, x.param_store, x.pi, x.buffer), ('foo', 5, None, None, None), 'attributes')
    m.raises(AssertionError, x.rollout, 'rollout-needs-a-policy')
    m.raises(AssertionError, x.buffer_len, 'buffer-required')
    m.ev('constructions')
    m.nontrivial(lim)


@scenario(quick=0, thorough=6)
def real_runtime(m):
    """the same conservation laws on the real ray runtime (skipped where ray cannot start)"""
    rng = m.rng
    nw, max_T = int(rng.integers(1, 4)), int(rng.integers(50, 200))
    tmp = tempfile.mkdtemp(prefix='vray')
    try:
        out = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'ray_agent.py'),
                              os.environ.get('VERIF_REPO', '/repo'), str(nw), str(max_T), str(int(rng.integers(999))),
                              tmp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=150, text=True,
                             env={**os.environ, 'RAY_AUTH_MODE': 'disabled'}).stdout
    except subprocess.TimeoutExpired:
        raise Skip
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    line = [x for x in out.splitlines() if x.startswith('REPORT ')]
    if not line:
        raise Skip
    rep = json.loads(line[0][7:])
    want = sorted((t, r) for w in rep['workers'] for t, r in w['hist'])
    got = sorted(map(tuple, rep['store']['buffer']))
    m.eq([t for t, _ in got], [t for t, _ in want], 'experience-arrives-exactly-once')
    m.close([r for _, r in got], [r for _, r in want], 'experience-arrives-unchanged', atol=1e-5)
    m.true(0 < rep['store']['T'] <= len(want), 'global-steps-never-overcount')
    if nw == 1:
        m.eq(rep['store']['T'], len(want), 'global-steps')
    m.eq(rep['learner']['learned'], list(range(len(rep['learner']['learned']))), 'no-update-is-lost')
    m.eq(rep['store']['version'], len(rep['learner']['learned']), 'store-keeps-the-last-pushed-parameters')
    m.ev('real-steps', len(want))
    m.ev('real-learns', rep['store']['version'])
    m.nontrivial(nw, max_T)
