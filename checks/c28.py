"""C28: exploration noise, schedules and running averages follow their stated processes."""
import collections

import numpy as onp

import coax
from coax.utils._rolling import ExponentialAverage, RollingAverage
from vmon import scenario
from vmon.gen import pick


@scenario(quick=60, thorough=4000, floor={'noisy-actions': 2000, 'clipped': 100, 'noise-resets': 60})
def ou_noise(m):
    """the injected noise, recovered from outputs, satisfies X' = X - theta (X - mu) + sigma eps with N(0,1) eps"""
    rng = m.rng
    d = int(rng.integers(1, 4))
    arr = bool(rng.random() < 0.4)
    shp = pick(rng, [(d,), (d,), (2, d)] if arr else [(d,), (d,), (2, d), ()])
    mu = rng.normal(size=d) if arr else float(rng.normal())
    sigma = rng.uniform(0.1, 2, d) if arr else float(rng.uniform(0.1, 2))
    theta = rng.uniform(0.05, 1.5, d) if arr else float(pick(rng, [rng.uniform(0.01, 0.9), rng.uniform(0.9, 1.8), 1.0]))
    bound = rng.random() < 0.5
    lo, hi = (float(pick(rng, [rng.uniform(-2, -0.5), 0.0])), float(pick(rng, [rng.uniform(0.5, 2), 1.0]))) if bound else (None, None)
    if bound and arr:
        lo, hi = onp.full(d, lo), onp.full(d, hi)
    seed = int(rng.integers(2 ** 31))
    noise = coax.utils.OrnsteinUhlenbeckNoise(mu=mu, sigma=sigma, theta=theta, min_value=lo, max_value=hi,
                                              random_seed=seed)
    free = coax.utils.OrnsteinUhlenbeckNoise(mu=mu, sigma=sigma, theta=theta, random_seed=seed)
    dt = pick(rng, ['float32', 'float64'])
    tol = 1e-4 if dt == 'float32' else 1e-9
    prev, eps = None, []
    for t in range(80):
        if t and rng.random() < 0.05:
            noise.reset()
            free.reset()
            prev = None
            m.ev('noise-resets')
        a = onp.asarray(rng.uniform(-1, 1, shp), dtype=dt)
        keep = a.copy()
        y, z = noise(a), free(a)
        m.eq(a, keep, 'action-not-modified')
        m.eq(onp.shape(y), shp, 'shape')
        # unbounded: recover the white noise
        x = onp.asarray(z, 'float64') - a
        last = onp.broadcast_to(mu, shp) if prev is None else prev
        eps.append((x - last + theta * (last - mu)) / sigma)
        prev = x
        # bounded: the output action is the clipped noisy action
        if bound:
            m.true(onp.all(y >= onp.asarray(lo) - 1e-6) and onp.all(y <= onp.asarray(hi) + 1e-6),
                   'noisy-action-within-bounds', y, lo, hi)
            m.close(y, onp.clip(onp.asarray(z, 'float64'), lo, hi), 'noisy-action-is-clipped', rtol=tol, atol=tol)
            m.ev('clipped', int(onp.any((z < lo) | (z > hi))))
        else:
            m.close(y, z, 'same-seed-same-noise', rtol=tol, atol=tol)
        m.ev('noisy-actions')
    e = onp.array(eps)
    n = e.size
    m.true(abs(e.mean()) < 6.5 / onp.sqrt(n), 'white-noise-mean', e.mean(), n)
    m.true(abs((e ** 2).mean() - 1) < 9 * onp.sqrt(2 / n), 'white-noise-variance', (e ** 2).mean(), n)
    if len(e) > 20:
        c = (e[1:] * e[:-1]).mean()
        m.true(abs(c) < 7 / onp.sqrt(e[1:].size), 'white-noise-uncorrelated', c)
        if e[0].size > 1:
            e = e.reshape(len(e), -1)
            c = (e[:, 0] * e[:, -1]).mean()
            m.true(abs(c) < 7 / onp.sqrt(len(e)), 'components-independent', c)
    m.nontrivial(d, arr, bound, dt)
    m.sample(d=d, bound=bound)


@scenario(quick=60, thorough=5000, floor={'schedule-points': 2000})
def schedules(m):
    rng = m.rng
    n = int(rng.integers(2, 7))
    ts = onp.sort(rng.choice(onp.arange(-50, 2000), n, replace=False))
    vs = [pick(rng, [float, int])(round(x, 3)) for x in rng.normal(0, 5, n)]
    f = coax.utils.StepwiseLinearFunction(*[(int(t), v) for t, v in zip(ts, vs)])
    pts = list(ts) + list(ts + 1) + list(ts - 1) + list(rng.uniform(ts[0] - 100, ts[-1] + 100, 30)) + [-1e9, 1e9]
    for t in pts:
        t = pick(rng, [float, int, onp.int64, onp.float64])(t)
        m.close(f(t), onp.interp(float(t), ts, vs), 'piecewise-linear', t, list(zip(ts, vs)), rtol=1e-9, atol=1e-9)
        m.ev('schedule-points')
    S = coax.utils.StepwiseLinearFunction
    m.raises(TypeError, lambda: S((0, 1.0)), 'two-steps-needed')
    m.raises(TypeError, lambda: S((0, 1.0), (1.5, 2.0)), 'integer-steps')
    m.raises(TypeError, lambda: S((0, 1.0), (1, 2.0, 3)), 'pairs')
    m.raises(ValueError, lambda: S((5, 1.0), (5, 2.0)), 'ascending')
    m.raises(ValueError, lambda: S((5, 1.0), (7, 0.), (6, 2.0)), 'ascending')
    m.nontrivial(n, tuple(ts))
    m.sample(steps=list(zip(ts, vs)))


@scenario(quick=60, thorough=5000, floor={'averages': 3000})
def averages(m):
    rng = m.rng
    n = int(pick(rng, [1, 2, 3, 10, 100]))
    a, e = RollingAverage(n), ExponentialAverage(n)
    xs = collections.deque(maxlen=n)
    ex, k = 0.0, 0
    m.eq((a.value, e.value), (0.0, 0.0), 'initial-value')
    for t in range(int(rng.integers(20, 250))):
        x = float(rng.normal() * 10.0 ** rng.integers(-2, 3))
        xs.append(x)
        k = min(k + 1, n)
        ex += (x - ex) / k
        got = a.update(x)
        scale = 1e3
        m.true(abs(got - onp.mean(xs)) < 1e-9 * scale, 'rolling-average', got, onp.mean(xs))
        m.eq(a.value, got, 'rolling-average-value')
        got = e.update(x)
        m.true(abs(got - ex) < 1e-9 * scale, 'exponential-average', got, ex)
        m.eq(e.value, got, 'exponential-average-value')
        m.ev('averages')
    m.nontrivial(n, t)
