"""C19: value losses equal their definitions, are weighted means, and have the documented gradient."""
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick


def np_mse(y, p):
    return 0.5 * (p - y) ** 2


def np_huber(y, p, delta=1.0):
    e = onp.abs(p - y)
    return onp.where(e <= delta, 0.5 * e ** 2, delta * e - 0.5 * delta ** 2)


def wmean(loss, w):
    if w is None:
        return loss.mean()
    return (loss * w.reshape((-1,) + (1,) * (loss.ndim - 1))).mean()


def data(rng, shape, scale):
    """targets, predictions whose errors straddle every kink, among them exact zeros"""
    y = rng.normal(size=shape) * scale
    e = rng.choice([-1, 1], shape) * 10. ** rng.uniform(-3, 3, shape)
    e = onp.where(rng.random(shape) < 0.1, 0., e)
    e = onp.where(rng.random(shape) < 0.1, rng.choice([-1., 1.], shape), e)
    y = y.astype('float32').astype('float64')
    return y, (y + e).astype('float32').astype('float64')


def j(x):
    return None if x is None else jnp.asarray(x, 'float32')


@scenario(quick=120, thorough=6000, floor={'losses': 300})
def regression(m):
    rng = m.rng
    shape = pick(rng, [(1,), (7,), (5, 3), (2, 3, 2)])
    y, p = data(rng, shape, pick(rng, [0., 1., 20.]))
    w = None if rng.random() < 0.3 else 10. ** rng.uniform(-2, pick(rng, [1.5, 1.5, 6]), shape[0])
    delta = float(pick(rng, [1.0, rng.uniform(0.1, 4)]))
    for name, got, want in (
            ('mse', coax.value_losses.mse(j(y), j(p), j(w)), wmean(np_mse(y, p), w)),
            ('huber', coax.value_losses.huber(j(y), j(p), j(w)), wmean(np_huber(y, p), w)),
            ('huber-delta', coax.value_losses.huber(j(y), j(p), j(w), delta=delta), wmean(np_huber(y, p, delta), w))):
        m.eq(onp.shape(got), (), name + ':scalar')
        m.close(got, want, name, rtol=2e-4, atol=1e-6)
        m.true(got >= 0, name + ':non-negative')
        m.ev('losses')
    # gradients: what a TD error is defined by
    n = float(onp.prod(shape))
    ww = onp.ones(shape) if w is None else onp.broadcast_to(w.reshape((-1,) + (1,) * (len(shape) - 1)), shape)
    g = jax.grad(coax.value_losses.mse, argnums=1)(j(y), j(p), j(w))
    m.close(g, ww * (p - y) / n, 'mse-gradient', rtol=2e-4, atol=1e-5)
    e = p - y
    g = onp.asarray(jax.grad(coax.value_losses.huber, argnums=1)(j(y), j(p), j(w)), 'float64')
    want = ww * onp.clip(e, -1, 1) / n
    smooth = (onp.abs(e) > 0) & (onp.abs(onp.abs(e) - 1) > 1e-3)
    m.true(onp.all(onp.abs(g - want)[smooth] <= 2e-4 * onp.abs(want)[smooth] + 1e-6), 'huber-gradient', g, want)
    m.true(onp.all(onp.isfinite(g)), 'huber-gradient-is-finite')
    m.nontrivial(shape, w is None)
    m.sample(shape=shape, delta=delta, loss=want)


@scenario(quick=100, thorough=5000, floor={'logistic': 200})
def classification(m):
    rng = m.rng
    n = int(pick(rng, [1, 6, 20]))
    w = None if rng.random() < 0.3 else 10. ** rng.uniform(-2, pick(rng, [1.5, 1.5, 6]), n)
    sgn = rng.choice([-1., 1.], n)
    z = rng.choice([-1, 1], n) * 10. ** rng.uniform(-3, pick(rng, [1, 2, 3]), n)
    z = z.astype('float32').astype('float64')
    got = coax.value_losses.logloss_sign(j(sgn), j(z), j(w))
    want = wmean(onp.logaddexp(0, -sgn * z), w)
    m.close(got, want, 'logloss-sign', z, rtol=2e-4, atol=2e-6)
    g = jax.grad(coax.value_losses.logloss_sign, argnums=1)(j(sgn), j(z), j(w))
    wg = (1 if w is None else w) * -sgn / (1 + onp.exp(onp.clip(sgn * z, -700, 700))) / n
    m.close(g, wg, 'logloss-sign-gradient', rtol=1e-3, atol=1e-6)
    y = rng.integers(0, 2, n).astype('float64')
    p = rng.uniform(0.001, 0.999, n)
    p = onp.where(rng.random(n) < 0.2, 10. ** rng.uniform(-30, -3, n), p).astype('float32').astype('float64')
    perfect = rng.random(n) < 0.2
    p = onp.where(perfect, y, p)
    with onp.errstate(all='ignore'):
        l = onp.where(y == 1, -onp.log(p), -onp.log1p(-p))
    m.close(coax.value_losses.logloss(j(y), j(p), j(w)), wmean(l, w), 'logloss', y, p, rtol=1e-3, atol=1e-6)
    # the two forms agree through the sigmoid
    zz = rng.uniform(-6, 6, n)
    a = coax.value_losses.logloss(j(y), jax.nn.sigmoid(j(zz)), j(w))
    b = coax.value_losses.logloss_sign(j(2 * y - 1), j(zz), j(w))
    m.close(a, b, 'both-logistic-losses-agree', rtol=2e-3, atol=1e-5)
    m.ev('logistic', 2)
    m.nontrivial(n, w is None, round(float(onp.abs(z).max()), 1))
    m.sample(n=n, z=z[:5])


@scenario(quick=80, thorough=4000, floor={'quantile': 80})
def quantile_huber(m):
    from coax.value_losses import quantile_huber as qh
    rng = m.rng
    b, nt, npd = int(rng.integers(1, 5)), int(rng.integers(1, 7)), int(rng.integers(1, 7))
    y = (rng.normal(size=(b, nt)) * pick(rng, [0.3, 1, 5])).astype('float32').astype('float64')
    p = (rng.normal(size=(b, npd)) * pick(rng, [0.3, 1, 5])).astype('float32').astype('float64')
    tau = rng.uniform(0, 1, (b, npd)).astype('float32').astype('float64')
    w = None if rng.random() < 0.3 else 10. ** rng.uniform(-2, pick(rng, [1.5, 1.5, 6]), b)
    delta = float(pick(rng, [1.0, rng.uniform(0.1, 4)]))
    loss = onp.zeros((b, npd))
    for r in range(b):
        for i in range(npd):
            for k in range(nt):
                d = y[r, k] - p[r, i]
                loss[r, i] += abs(tau[r, i] - (d < 0)) * np_huber(0., d, delta) / delta
    got = qh(j(y), j(p), j(tau), j(w), delta=delta)
    m.close(got, wmean(loss, w), 'quantile-huber', (b, nt, npd, delta), rtol=5e-4, atol=1e-6)
    m.ev('quantile')
    # the asymmetric gradient drives prediction i towards quantile tau_i
    g = onp.asarray(jax.grad(qh, argnums=1)(j(y), j(p), j(tau), j(w), delta), 'float64')
    d = y[:, None, :] - p[:, :, None]
    wg = -(onp.abs(tau[..., None] - (d < 0)) * onp.clip(d, -delta, delta) / delta).sum(-1) / (b * npd)
    wg = wg * (1 if w is None else w[:, None])
    m.true(onp.all(onp.abs(g - wg) <= 1e-3 * onp.abs(wg) + 1e-4 * (1 if w is None else w[:, None])), 'quantile-gradient', g, wg)
    m.nontrivial(b, nt, npd, w is None)
    m.sample(shapes=(b, nt, npd), delta=delta, loss=float(got))


@scenario(quick=40, thorough=1500, floor={'fractions': 100})
def quantile_fractions(m):
    rng = m.rng
    b, n = int(rng.integers(1, 6)), int(rng.integers(1, 50))
    q = onp.asarray(coax.utils.quantiles(b, n), 'float64')
    m.close(q, onp.tile(onp.arange(n) / n, (b, 1)), 'equally-spaced', rtol=1e-5, atol=1e-6)
    u = onp.asarray(coax.utils.quantiles_uniform(jax.random.PRNGKey(int(rng.integers(2 ** 31))), b, n), 'float64')
    m.eq(u.shape, (b, n), 'uniform-shape')
    m.true(onp.all(onp.diff(u, axis=1) >= -1e-6) and onp.all((u > -1e-6) & (u < 1 + 1e-5)), 'increasing-in-unit-interval', u)
    m.close(u[:, -1], onp.ones(b), 'splits-the-whole-interval', rtol=1e-4)
    if b > 1 and n > 2:
        m.true(not onp.allclose(u[0], u[1]), 'rows-are-drawn-independently')
    k = int(pick(rng, [1, 3, 8, 12, 64, 129]))
    e = onp.asarray(coax.utils.quantile_cos_embedding(jnp.asarray(u, 'float32'), k), 'float64')
    cand = [onp.cos(u[..., None] * onp.pi * (onp.arange(k) + s)) for s in (0, 1)]
    m.true(e.shape == (b, n, k) and any(onp.allclose(e, c, rtol=0, atol=2e-6 + 1e-6 * k) for c in cand), 'cosine-embedding')
    m.ev('fractions', 3)
    m.nontrivial(b, n, k)
