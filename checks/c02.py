"""C02: Monte-Carlo return tracing."""
import numpy as onp

import coax
from coax._base.errors import EpisodeDoneError, InsufficientCacheError
from vmon import scenario
from vmon.gen import OBS_KINDS, pick, tagged_obs, zero_or, batch1_equal


def _reward(rng, kind):
    if kind == 'mixed':
        kind = pick(rng, ['int', 'float', 'zero', 'npfloat'])
    if kind == 'zero':
        return 0
    if kind == 'npfloat':
        return onp.float64(rng.standard_normal())
    if kind == 'int':
        return int(rng.integers(-3, 4))
    if kind == 'array':
        return rng.standard_normal(2)
    if kind == 'huge':
        return float(rng.standard_normal() * 1e6)
    return float(rng.standard_normal())


def returns(steps, gamma):
    """Discounted return of every step, from the definition (no recursion)."""
    out = []
    for t in range(len(steps)):
        g = 0.0
        for k in range(t, len(steps)):
            g = g + (gamma ** (k - t)) * onp.asarray(steps[k][2], dtype='float64')
        out.append(g)
    return out


def check(m, got, step, g):
    s, a, r, logp, w = step
    m.ev('transitions')
    m.eq(int(got.batch_size), 1, 'one-transition-per-pop')
    batch1_equal(m, got.S, s, 'state')
    batch1_equal(m, got.A, a, 'action')
    m.close(got.Rn, onp.expand_dims(g, 0), 'full-return', rtol=1e-6, atol=1e-7)
    m.eq(onp.asarray(got.In, dtype='float64'), onp.zeros(1), 'never-bootstraps')
    m.close(got.logP, [logp], 'log-propensity', rtol=1e-6)
    m.close(got.W, [w], 'weight', rtol=1e-6)
    m.true(got.extra_info is None, 'no-extra-info')


@scenario(quick=1500, thorough=60000, floor={'transitions': 3000, 'episodes': 500,
                                             'add-rejected': 50, 'pop-rejected': 50, 'resets': 20, 'resets-while-draining': 100})
def histories(m):
    rng = m.rng
    gamma = float(pick(rng, [0.0, 0.1, 0.5, 0.9, 0.99, 1.0, rng.random()]))
    okind, akind = pick(rng, OBS_KINDS), pick(rng, ['int', 'vec', 'dict'])
    rkind = pick(rng, ['float', 'float', 'int', 'mixed', 'array', 'huge'])
    style = pick(rng, ['pop', 'flush', 'mixed'])
    tracer = coax.reward_tracing.MonteCarlo(gamma=gamma)
    m.log('MonteCarlo', gamma, okind, akind, rkind, style)
    tag = 0
    for ep in range(int(rng.integers(1, 7))):
        length = int(pick(rng, [1, 1, 2, 3, 10, int(rng.integers(1, 40)), int(pick(rng, [5, 20, 250]))]))
        steps = []
        t = 0
        while t < length:
            if rng.random() < 0.02:
                tracer.reset()
                steps = []
                m.ev('resets')
                m.eq(len(tracer), 0, 'reset-empties')
            if rng.random() < 0.05:
                m.raises(InsufficientCacheError, tracer.pop, 'pop-before-done-raises')
                m.raises(InsufficientCacheError, tracer.flush, 'flush-before-done-raises')
                m.ev('pop-rejected')
            done = t == length - 1
            tag += 1
            step = (tagged_obs(rng, okind, zero_or(rng, tag)), tagged_obs(rng, akind, zero_or(rng, tag + 1000)),
                    _reward(rng, rkind), pick(rng, [0.0, -float(rng.random()), -float(rng.exponential(30))]),
                    pick(rng, [1.0, float(rng.random() + 0.1), float(10 ** rng.uniform(-4, 4))]))
            s, a, r, logp, w = step
            if logp == 0 and w == 1:
                tracer.add(s, a, r, pick(rng, [bool(done), onp.bool_(done)]))
            else:
                tracer.add(s, a, r, pick(rng, [bool(done), onp.bool_(done)]), logp, w)
            m.log('add', tag, r, done)
            steps.append(step)
            m.eq(len(tracer), len(steps), 'pending-count')
            m.eq(bool(tracer), bool(done), 'ready-iff-episode-complete')
            t += 1
        G = returns(steps, gamma)
        order = list(range(len(steps)))[::-1]
        if style == 'flush':
            batch = tracer.flush()
            m.eq(int(batch.batch_size), len(steps), 'flush-emits-everything')
            got = list(batch.to_singles())
            for j, tb in zip(order, got):
                check(m, tb, steps[j], G[j])
        else:
            k = 0
            while k < len(order):
                if rng.random() < 0.03:
                    tracer.reset()                 # abandons what was not popped yet
                    m.ev('resets-while-draining')
                    break
                if rng.random() < 0.1:
                    m.raises(EpisodeDoneError, lambda: tracer.add(0, 0, 1.0, False),
                             'add-after-done-raises')
                    m.eq(len(tracer), len(order) - k, 'rejected-add-has-no-effect')
                    m.ev('add-rejected')
                if style == 'mixed' and rng.random() < 0.1:
                    batch = tracer.flush()
                    m.eq(int(batch.batch_size), len(order) - k, 'flush-emits-the-rest')
                    for j, tb in zip(order[k:], batch.to_singles()):
                        check(m, tb, steps[j], G[j])
                    break
                check(m, tracer.pop(), steps[order[k]], G[order[k]])
                k += 1
        m.eq(len(tracer), 0, 'nothing-left')
        m.eq(bool(tracer), False, 'not-ready-when-empty')
        m.ev('episodes')
        m.nontrivial(gamma, okind, akind, rkind, style, length)
    m.sample(gamma=gamma, obs=okind, style=style, steps=tag)


@scenario(quick=8, thorough=200, floor={'long-transitions': 8000})
def long_episode(m):
    rng = m.rng
    T = int(pick(rng, [1100, 2100, 4200, int(rng.integers(500, 5000))]))
    gamma = float(pick(rng, [0.9, 0.99, 0.999, 1.0]))
    tracer = coax.reward_tracing.MonteCarlo(gamma=gamma)
    how = pick(rng, ['flush', 'pop'])
    for ep in range(2):
        R = rng.normal(size=T)
        for t in range(T):
            tracer.add(ep * T + t, t % 7, float(R[t]), t == T - 1, logp=-float(t % 11), w=1. + t % 3)
        if how == 'flush':
            tb = tracer.flush()
            out = {k: onp.asarray(getattr(tb, k)) for k in ('S', 'A', 'Rn', 'In', 'logP', 'W')}
        else:
            got = []
            while tracer:
                got.append(tracer.pop())
            out = {k: onp.concatenate([getattr(o, k) for o in got]) for k in ('S', 'A', 'Rn', 'In', 'logP', 'W')}
        G, g = onp.zeros(T), 0.
        for t in range(T - 1, -1, -1):
            g = R[t] + gamma * g
            G[t] = g
        order = onp.argsort(out['S'], kind='stable')
        i = onp.arange(T)
        m.eq(out['S'][order], ep * T + i, 'every-step-once')
        m.eq(out['A'][order], i % 7, 'action')
        m.close(out['Rn'][order], G, 'full-return', rtol=1e-6, atol=1e-6)
        m.close(out['logP'][order], -(i % 11), 'log-propensity')
        m.close(out['W'][order], 1. + i % 3, 'weight')
        m.true(not onp.any(out['In']), 'never-bootstraps')
        m.ev('long-transitions', T)
    m.nontrivial(T, how, gamma)
    m.sample(T=T, how=how)
