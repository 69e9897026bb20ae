"""C01: n-step reward tracing."""
import numpy as onp

import coax
from coax._base.errors import EpisodeDoneError, InsufficientCacheError
from vmon import scenario
from vmon.gen import OBS_KINDS, pick, tagged_obs, zero_or, batch1_equal


class Ref:
    """Independent model: remembers whole episodes, answers from the definition."""

    def __init__(self, n, gamma):
        self.n, self.gamma = n, gamma
        self.steps, self.done, self.popped = [], False, 0

    def pending(self):
        return len(self.steps) - self.popped

    def ready(self):
        return self.pending() > 0 and (self.done or self.pending() > self.n)

    def can_add(self):
        return not (self.done and self.pending())

    def add(self, *step):
        if self.pending() == 0:           # everything emitted: an episode boundary or mid-episode
            if self.done:
                self.steps, self.popped, self.done = [], 0, False
        self.steps.append(step[:3] + step[4:])
        self.done = step[3]

    def reset(self):
        self.steps, self.popped, self.done = [], 0, False

    def pop(self):
        t = self.popped
        self.popped += 1
        T = len(self.steps)
        s, a, r, logp, w = self.steps[t]
        rn = 0.0
        for k in range(self.n):
            if t + k < T:
                rn = rn + (self.gamma ** k) * onp.asarray(self.steps[t + k][2], dtype='float64')
        boot = t + self.n < T
        nxt = self.steps[t + self.n] if boot else None
        return dict(t=t, T=T, s=s, a=a, rn=rn, logp=logp, w=w, In=self.gamma ** self.n if boot else 0.0,
                    nxt=nxt)


def _reward(rng, kind):
    if kind == 'mixed':
        kind = pick(rng, ['int', 'float', 'zero', 'npfloat'])
    if kind == 'zero':
        return 0
    if kind == 'npfloat':
        return onp.float64(rng.standard_normal())
    if kind == 'int':
        return int(rng.integers(-3, 4))
    if kind == 'array':
        return rng.standard_normal(2)
    if kind == 'huge':
        return float(rng.standard_normal() * 1e6)
    return float(rng.standard_normal())


def check_transition(m, ref, got, want, record, okind, akind):
    m.ev('transitions')
    m.eq(int(got.batch_size), 1, 'one-transition-per-pop')
    batch1_equal(m, got.S, want['s'], 'state')
    batch1_equal(m, got.A, want['a'], 'action')
    m.close(got.Rn, onp.expand_dims(want['rn'], 0), 'n-step-return', want['t'], rtol=1e-6, atol=1e-9)
    m.close(got.In, [want['In']], 'bootstrap-factor', want['t'], want['T'], rtol=1e-6, atol=1e-12)
    m.close(got.logP, [want['logp']], 'log-propensity', rtol=1e-6, atol=1e-9)
    m.close(got.W, [want['w']], 'weight', rtol=1e-6, atol=1e-9)
    if want['nxt'] is not None:
        m.ev('bootstrapped')
        s2, a2, _, logp2, _ = want['nxt']
        batch1_equal(m, got.S_next, s2, 'next-state')
        batch1_equal(m, got.A_next, a2, 'next-action')
        m.close(got.logP_next, [logp2], 'next-log-propensity', rtol=1e-6, atol=1e-9)
    else:
        m.ev('terminal')
    if record:
        m.ev('extra_info')
        check_extra(m, ref, got, want)
    else:
        m.true(got.extra_info is None, 'no-extra-info-unless-requested')


def check_extra(m, ref, got, want):
    """states[k], k=0..n: the k-th step of the window; past the end of the episode the last step is
    repeated.  dones[k] marks that the episode has ended at or before step k of the window."""
    info, t, n = got.extra_info, want['t'], ref.n
    m.eq(sorted(info), sorted(['states', 'actions', 'rewards', 'dones', 'log_props', 'weights']),
         'extra-info-fields')
    T = len(ref.steps)
    for k in range(n + 1):
        j = min(t + k, T - 1)
        s, a, r, logp, w = ref.steps[j]
        batch1_equal(m, info['states'][k], s, 'extra-states')
        batch1_equal(m, info['actions'][k], a, 'extra-actions')
        m.close(info['rewards'][k], onp.expand_dims(r, 0), 'extra-rewards', rtol=1e-6)
        m.close(info['log_props'][k], [logp], 'extra-log-props', rtol=1e-6)
        m.close(info['weights'][k], [w], 'extra-weights', rtol=1e-6)
        ended = ref.done and t + k >= T - 1
        m.eq(bool(onp.asarray(info['dones'][k]).ravel()[0]), ended, 'extra-dones', t, k, T)
    m.eq(len(info['states']), n + 1, 'extra-length')


@scenario(quick=1200, thorough=40000, floor={'transitions': 3000, 'bootstrapped': 500,
                                             'terminal': 500, 'extra_info': 200, 'add-rejected': 50,
                                             'pop-rejected': 50, 'resets': 20, 'flushes-mid-episode': 100,
                                             'resets-while-draining': 50})
def histories(m):
    rng = m.rng
    n = int(pick(rng, [1, 1, 2, 3, 4, 5, 7, 12, 30]))
    gamma = float(pick(rng, [0.0, 0.1, 0.5, 0.9, 0.99, 1.0, rng.random()]))
    okind, akind = pick(rng, OBS_KINDS), pick(rng, ['int', 'vec', 'dict'])
    rkind = pick(rng, ['float', 'float', 'int', 'mixed', 'array', 'huge'])
    record = bool(rng.random() < 0.35)
    style = pick(rng, ['eager', 'flush', 'lazy', 'random'])
    kw = {'record_extra_info': True} if record else {}
    tracer = coax.reward_tracing.NStep(n=n, gamma=gamma, **kw)
    ref = Ref(n, gamma)
    tag, eps = 0, 0
    n_ep = int(rng.integers(1, 6))
    m.log('NStep', n, gamma, okind, akind, rkind, record, style)

    def drain(limit):
        while limit != 0 and tracer:
            check_transition(m, ref, tracer.pop(), ref.pop(), record, okind, akind)
            limit -= 1

    def flush():
        batch = tracer.flush()
        want = []
        while ref.ready():
            want.append(ref.pop())
        m.eq(int(batch.batch_size), len(want), 'flush-emits-everything-ready')
        for got, w_ in zip(batch.to_singles(), want):
            check_transition(m, ref, got, w_, record, okind, akind)
        m.ev('flushes')

    while eps < n_ep:
        length = int(pick(rng, [1, 1, 2, n - 1 or 1, n, n + 1, 2 * n + 1, int(rng.integers(1, 25)), int(pick(rng, [4, 30, 200]))]))
        for t in range(length):
            done = t == length - 1
            if rng.random() < 0.02:
                tracer.reset()
                ref.reset()
                m.ev('resets')
                m.true(not tracer and len(tracer) == 0, 'reset-empties')
            tag += 1
            s, a = tagged_obs(rng, okind, zero_or(rng, tag)), tagged_obs(rng, akind, zero_or(rng, tag + 1000))
            r, logp, w = (_reward(rng, rkind), pick(rng, [0.0, 0, -2, -float(rng.random()), -float(rng.exponential(30))]),
                          pick(rng, [1.0, float(rng.random() + 0.1), float(10 ** rng.uniform(-4, 4))]))
            dn = pick(rng, [bool(done), onp.bool_(done)])
            tracer.add(s, a, r, dn, *(() if logp == 0 and w == 1 else (logp, w)))
            ref.add(s, a, r, bool(done), logp, w)
            m.log('add', tag, bool(done))
            m.eq(len(tracer), ref.pending(), 'pending-count')
            m.eq(bool(tracer), ref.ready(), 'ready')
            if style == 'eager' or (style == 'random' and rng.random() < 0.5):
                drain(-1 if style == 'eager' else int(rng.integers(1, 4)))
            if style in ('random', 'flush') and ref.ready() and not done and rng.random() < 0.2:
                flush()
                m.ev('flushes-mid-episode')
            if not ref.ready() and rng.random() < 0.1:
                m.raises(InsufficientCacheError, tracer.pop, 'pop-before-ready-raises')
                m.raises(InsufficientCacheError, tracer.flush, 'flush-before-ready-raises')
                m.ev('pop-rejected')
            if not ref.can_add() and rng.random() < 0.3:
                m.raises(EpisodeDoneError, lambda: tracer.add(s, a, r, False, logp, w),
                         'add-after-done-raises')
                m.eq(len(tracer), ref.pending(), 'rejected-add-has-no-effect')
                m.ev('add-rejected')
        if style in ('flush', 'lazy') and tracer:
            flush()
        elif rng.random() < 0.1:
            drain(int(rng.integers(0, 3)))
            tracer.reset()                          # abandons what was not popped yet
            ref.reset()
            m.ev('resets-while-draining')
        else:
            drain(-1)
        m.eq(len(tracer), 0, 'nothing-left-after-episode')
        m.eq(bool(tracer), False, 'not-ready-after-episode')
        eps += 1
        m.nontrivial(n, gamma, okind, akind, rkind, record, style, length)
    m.sample(n=n, gamma=gamma, obs=okind, style=style, episodes=eps, steps=tag)


@scenario(quick=60, thorough=1000, floor={'rejects': 100})
def bad_input(m):
    """Values outside the domain are refused rather than turned into transitions."""
    rng = m.rng
    tracer = coax.reward_tracing.NStep(n=int(rng.integers(1, 4)), gamma=0.9)
    tracer.add(0, 0, 1.0, True, logp=float(rng.random() + 1e-3))
    m.raises(TypeError, tracer.pop, 'positive-logp-refused')
    tracer = coax.reward_tracing.NStep(n=1, gamma=float(pick(rng, [-0.1, 1.0001, 2.0])))
    tracer.add(0, 0, 1.0, True)
    m.raises(TypeError, tracer.pop, 'gamma-outside-unit-interval-refused')
    tracer = coax.reward_tracing.NStep(n=1, gamma=0.9)
    tracer.add(0, 0, 1.0, True, w=float(pick(rng, [0.0, -1.0])))
    m.raises(TypeError, tracer.pop, 'nonpositive-weight-refused')
    m.ev('rejects', 3)


@scenario(quick=10, thorough=200, floor={'long-transitions': 8000})
def long_backlog(m):
    """thousands of steps kept before (or between) pops, large n"""
    rng = m.rng
    T = int(pick(rng, [1100, 2100, 4200, int(rng.integers(500, 5000))]))
    n = int(pick(rng, [1, 5, 64, 300, 1000, int(rng.integers(1, 600))]))
    gamma = float(pick(rng, [0.9, 0.99, 0.999, 1.0]))
    tracer = coax.reward_tracing.NStep(n=n, gamma=gamma)
    how = pick(rng, ['flush', 'pop', 'eager'])
    for ep in range(2):
        R = rng.normal(size=T)
        out = []
        for t in range(T):
            tracer.add(ep * T + t, t % 7, float(R[t]), t == T - 1, logp=-float(t % 11), w=1. + t % 3)
            while how == 'eager' and tracer:
                out.append(tracer.pop())
        if how == 'flush':
            tb = tracer.flush()
        else:
            while tracer:
                out.append(tracer.pop())
            tb = {k: onp.concatenate([getattr(o, k) for o in out]) for k in
                  ('S', 'A', 'Rn', 'In', 'S_next', 'A_next', 'logP', 'logP_next', 'W')}
        get = (lambda k: tb[k]) if isinstance(tb, dict) else (lambda k: onp.asarray(getattr(tb, k)))
        i = onp.arange(T)
        m.eq(get('S'), ep * T + i, 'every-step-once-in-order', n, how)
        m.eq(get('A'), i % 7, 'action')
        m.close(get('logP'), -(i % 11), 'log-propensity')
        m.close(get('W'), 1. + i % 3, 'weight')
        g = gamma ** onp.arange(n)
        want = onp.convolve(R[::-1], g)[:T][::-1]
        m.close(get('Rn'), want, 'n-step-return', n, gamma, rtol=1e-6, atol=1e-6)
        boot = i + n < T
        m.close(get('In'), onp.where(boot, gamma ** n, 0), 'bootstrap-factor', rtol=1e-6)
        m.eq(get('S_next')[boot], ep * T + i[boot] + n, 'next-state')
        m.eq(get('A_next')[boot], (i[boot] + n) % 7, 'next-action')
        m.close(get('logP_next')[boot], -((i[boot] + n) % 11), 'next-log-propensity')
        m.ev('long-transitions', T)
    m.nontrivial(T, n, how)
    m.sample(T=T, n=n, how=how)
