"""C16: state-value functions return values in the original space; value transforms are exact inverses."""
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.models import DistModel, Identity, Obs, Transform, VModel, log_softmax

KEY = jax.random.PRNGKey


@scenario(quick=60, thorough=3000, floor={'transformed': 3000})
def log_transform(m):
    rng = m.rng
    c = float(10. ** rng.uniform(-2, 2))
    t = coax.value_transforms.LogTransform(c)
    f, g = (t.transform_func, t.inverse_func) if rng.random() < 0.5 else tuple(t)
    x = onp.concatenate([[0., c, -c], rng.choice([-1, 1], 60) * c * 10. ** rng.uniform(-4, 5, 60)])
    x = x.astype('float32').astype('float64')
    y = onp.asarray(f(jnp.asarray(x, 'float32')), 'float64')
    want = onp.sign(x) * c * onp.log1p(onp.abs(x) / c)
    m.true(onp.all(onp.abs(y - want) <= 1e-5 * onp.abs(want) + 1e-6 * c), 'log-transform', c, x, y, want)
    back = onp.asarray(g(jnp.asarray(y, 'float32')), 'float64')
    m.true(onp.all(onp.abs(back - x) <= 1e-4 * onp.abs(x) + 1e-6 * c), 'inverse-undoes-transform', c, x, back)
    z = rng.uniform(-10, 10, 40) * c
    xz = onp.asarray(g(jnp.asarray(z, 'float32')), 'float64')
    wz = onp.sign(z) * c * onp.expm1(onp.abs(z) / c)
    m.true(onp.all(onp.abs(xz - wz) <= 1e-4 * onp.abs(wz) + 1e-6 * c), 'inverse-transform', c, z, xz, wz)
    zz = onp.asarray(f(jnp.asarray(xz, 'float32')), 'float64')
    m.true(onp.all(onp.abs(zz - z) <= 1e-4 * onp.abs(z) + 1e-6 * c), 'transform-undoes-inverse', c, z, zz)
    o = onp.argsort(x)
    m.true(onp.all(onp.diff(y[o]) >= 0), 'increasing')
    # usable as a shape-preserving, differentiable function on any batch
    X = rng.normal(size=(3, 2)).astype('float32') * c
    m.eq(onp.shape(f(X)), (3, 2), 'elementwise')
    d = onp.asarray(jax.vmap(jax.grad(f))(jnp.asarray(x[3:], 'float32')), 'float64')
    m.close(d, 1 / (1 + onp.abs(x[3:]) / c), 'slope', rtol=1e-4, atol=1e-6)
    m.ev('transformed', len(x))
    m.nontrivial(round(c, 3))
    m.sample(scale=c, x=x[:6], y=y[:6])


@scenario(quick=20, thorough=500, floor={'custom': 100})
def custom_transform(m):
    """a ValueTransform hands out exactly the two functions it was given, in both forms"""
    rng = m.rng
    a, b = float(rng.uniform(0.3, 3)), float(rng.uniform(-2, 2))
    f, g = (lambda x: a * x + b), (lambda y: (y - b) / a)
    t = coax.value_transforms.ValueTransform(f, g)
    for x in rng.normal(size=10) * 10:
        m.close(t.transform_func(x), a * x + b, 'transform', rtol=1e-9)
        m.close(t.inverse_func(x), (x - b) / a, 'inverse', rtol=1e-9)
        f2, g2 = t
        m.close(g2(f2(x)), x, 'unpacked', rtol=1e-9, atol=1e-9)
        m.ev('custom')
    m.nontrivial(m.index)


def single(obs, S, i):
    s = jax.tree_util.tree_map(lambda v: v[i], S)
    return int(s) if obs.kind == 'disc' else s


def pre(f, S, b):
    return jax.tree_util.tree_map(lambda *x: jnp.concatenate(x), *[
        f.observation_preprocessor(KEY(0), jax.tree_util.tree_map(lambda v: v[i], S)) for i in range(b)])


@scenario(quick=60, thorough=1500, floor={'v-queries': 300})
def v_function(m):
    rng = m.rng
    obs = Obs(rng, img=True, rich=True)
    tr = Transform(rng) if rng.random() < 0.6 else Identity()
    model = VModel(rng, obs, stateful=rng.random() < 0.5, transform=tr if tr.kind != 'none' else None)
    f = model.f
    b = int(pick(rng, [1, 2, 4]))
    for _ in range(3):
        model.randomize(rng)
        S = obs.sample(rng, b)
        raw = model.raw(S)
        before = jax.tree_util.tree_map(onp.array, (f.params, f.function_state))
        for i in range(b):
            x = f(single(obs, S, i))
            m.eq(onp.shape(x), (), 'one-number')
            m.close(x, tr.f_inv(raw[i]), 'value-in-the-original-space', tr.kind, rtol=2e-3, atol=1e-3)
            m.ev('v-queries')
        m.tree_eq(jax.tree_util.tree_map(onp.array, (f.params, f.function_state)), before, 'calling-changes-nothing')
        X = pre(f, S, b)
        for training in (False, True):
            out, state = f.function(f.params, f.function_state, f.rng, X, training)
            m.close(out, model.raw(S, training), 'batched-function', training, rtol=1e-3, atol=1e-4)
            if model.stateful:
                n0 = float(jax.tree_util.tree_leaves(f.function_state)[0])
                m.eq(float(jax.tree_util.tree_leaves(state)[0]), n0 + training, 'state-advances-in-training-only')
        # row i of the output depends on row i of the input only
        if b > 1:
            perm = rng.permutation(b)
            out = f.function(f.params, f.function_state, KEY(1), jax.tree_util.tree_map(lambda v: v[perm], X), False)[0]
            m.close(out, raw[perm], 'rows-are-independent', rtol=1e-3, atol=1e-4)
        m.nontrivial(obs.kind, tr.kind, model.stateful, b)
    m.sample(obs=obs.kind, transform=tr.kind, raw=raw)


@scenario(quick=50, thorough=1200, floor={'stochastic-v-queries': 150, 'v-samples': 3000, 'certain': 20})
def stochastic_v(m):
    rng = m.rng
    obs = Obs(rng, img=True, rich=True)
    tr = Transform(rng) if rng.random() < 0.6 else Identity()
    model = DistModel(rng, obs, kind='cat', stateful=rng.random() < 0.5, transform=tr if tr.kind != 'none' else None)
    f = model.f
    b = int(pick(rng, [1, 3]))
    for _ in range(2):
        model.randomize(rng, 1.2)
        S = obs.sample(rng, b)
        d = model.d1(S)
        for i in range(b):
            s = single(obs, S, i)
            m.ev('stochastic-v-queries')
            m.close(f.dist_params(s)[model.key], d[i], 'dist-params', rtol=1e-3, atol=1e-4)
            m.close(f.mean(s), tr.f_inv(model.mean(d[i])), 'mean-in-the-original-space', model.kind, tr.kind,
                    rtol=2e-3, atol=1e-3)
            x = float(f(s))
            lo, hi = tr.f_inv(model.atoms[0]), tr.f_inv(model.atoms[-1])
            m.true(lo - 1e-3 * (1 + abs(lo)) <= x <= hi + 1e-3 * (1 + abs(hi)), 'a-sample-is-within-the-support', x)
            w = onp.exp(log_softmax(log_softmax(d[i]) / 0.2))
            m.close(f.mode(s), tr.f_inv(w @ model.atoms), 'mode', rtol=2e-3, atol=1e-3)
            x, lp = f(s, return_logp=True)
            m.true(onp.isfinite(lp), 'log-probability-is-a-number', lp)
        X = pre(f, S, b)
        for training in (False, True):
            out, _ = f.function(f.params, f.function_state, f.rng, X, training)
            m.close(out[model.key], model.d1(S, None, training), 'batched-function', training, rtol=1e-3, atol=1e-4)
    model.randomize(rng, 40.)          # one atom has all of the probability: every way of drawing gives that atom
    e = model.d1(S)
    for i in range(b):
        top = onp.sort(e[i])
        if top[-1] - top[-2] > 30:
            s = single(obs, S, i)
            x, logp = f(s, return_logp=True)
            for got in (f(s), x, f.mean(s), f.mode(s)):
                m.close(got, tr.f_inv(model.atoms[int(e[i].argmax())]), 'certain-value', tr.kind, rtol=2e-3, atol=2e-3)
            m.close(logp, 0., 'log-probability-of-the-certain-value', atol=1e-3)
            m.ev('certain')
    model.randomize(rng, 1.2)
    d = model.d1(S)
    # repeated calls draw fresh samples
    s = single(obs, S, 0)
    p = onp.exp(log_softmax(d[0]))
    if p.max() < 0.9:
        xs = {float(f(s)) for _ in range(200)}
        m.true(len(xs) > 8, 'calls-draw-fresh-samples', p, sorted(xs)[:5])
        m.ev('v-samples', 200)
    m.nontrivial(obs.kind, tr.kind, model.kind, model.bins, b)
    m.sample(obs=obs.kind, kind=model.kind, transform=tr.kind)
