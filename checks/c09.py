"""C09: an update is a semi-gradient step on the stated loss and touches nothing else."""
import copy

import jax
import jax.numpy as jnp
import numpy as onp
import optax

from vmon import scenario
from vmon import dtd, td
from vmon.gen import pick
from vmon.models import batch


def snap(f):
    return jax.tree_util.tree_map(lambda x: onp.array(x), (f.params, f.function_state))


def bits_equal(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(onp.array_equal(onp.asarray(x), onp.asarray(y), equal_nan=True)
                            for x, y in zip(la, lb))


def optimizer(rng):
    k = pick(rng, ['sgd', 'momentum', 'adam', 'chain'])
    lr = float(rng.uniform(0.01, 0.2))
    return k, {'sgd': optax.sgd(lr), 'momentum': optax.sgd(lr, momentum=0.9), 'adam': optax.adam(lr),
               'chain': optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(lr))}[k]


def make(rng, dist, opt=None):
    return dtd.DSetup(rng, optimizer=opt) if dist else td.Setup(rng, optimizer=opt)


def oracle_loss(su, tb, params=None, target=None):
    Y = su.prediction(tb, params)
    return su.loss(target, Y, tb.W)


def gradient(m, dist):
    rng = m.rng
    su = make(rng, dist)
    m.log(su.describe())
    size = int(pick(rng, [1, 4, 6]))
    for _ in range(3):
        su.randomize(rng)
        tb = batch(rng, su.obs, su.act, size)
        G, ok = su.target(tb)
        if not ok.all():
            continue
        grads, state, metrics, err = su.td.grads_and_metrics(tb)
        m.true(jax.tree_util.tree_structure(grads) == jax.tree_util.tree_structure(su.main.f.params),
               'gradient-structure')
        p64 = jax.tree_util.tree_map(lambda x: onp.asarray(x, 'float64'), su.main.f.params)
        for _ in range(3):
            v = jax.tree_util.tree_map(lambda x: rng.normal(size=x.shape), p64)
            h = 1e-5
            up = jax.tree_util.tree_map(lambda a, b: a + h * b, p64, v)
            dn = jax.tree_util.tree_map(lambda a, b: a - h * b, p64, v)
            fd = (oracle_loss(su, tb, up, G) - oracle_loss(su, tb, dn, G)) / (2 * h)
            dots = [(onp.asarray(g, 'float64') * w).sum() for g, w in
                    zip(jax.tree_util.tree_leaves(grads), jax.tree_util.tree_leaves(v))]
            mag = sum(onp.abs(onp.asarray(g, 'float64') * w).sum() for g, w in
                      zip(jax.tree_util.tree_leaves(grads), jax.tree_util.tree_leaves(v)))
            m.true(abs(sum(dots) - fd) <= 1e-2 * (0.05 + mag), 'semi-gradient-of-the-loss',
                   f'<grads,v>={sum(dots)} finite-difference={fd} magnitude={mag}', su.describe())
            m.ev('directional-derivatives')
        if su.stateful:
            n0 = float(onp.asarray(jax.tree_util.tree_leaves(su.main.f.function_state)[0]))
            n1 = float(onp.asarray(jax.tree_util.tree_leaves(state)[0]))
            m.eq(n1, n0 + 1, 'state-advanced-once-in-training-mode')
            m.ev('states')
        m.nontrivial(su.describe(), size)
    m.sample(config=su.describe())


@scenario(quick=40, thorough=900, floor={'directional-derivatives': 400})
def gradient_scalar(m):
    gradient(m, False)


@scenario(quick=24, thorough=700, floor={'states': 30})
def gradient_distributional(m):
    gradient(m, True)


@scenario(quick=40, thorough=900, floor={'updates': 40, 'untouched-functions': 60, 'nan-updates': 15,
                                         'split-updates': 40})
def isolation(m):
    rng = m.rng
    kind, opt = optimizer(rng)
    su = make(rng, rng.random() < 0.4, opt)
    u, f = su.td, su.main.f
    m.log(su.describe(), kind)
    others = [x for x in su.models() if x is not su.main]
    size = 4
    ref_params, ref_opt = f.params, opt.init(f.params)
    for step in range(4):
        tb = batch(rng, su.obs, su.act, size)
        tb_before = jax.tree_util.tree_map(onp.array, tb)
        others_before = [snap(x.f) for x in others]
        p0, s0 = snap(f)
        grads, state, metrics, err = u.grads_and_metrics(tb)
        m.true(bits_equal(snap(f), (p0, s0)), 'computing-gradients-has-no-effect')
        if any(onp.isnan(onp.asarray(g)).any() for g in jax.tree_util.tree_leaves(grads)):
            continue
        upd, ref_opt = opt.update(grads, ref_opt, ref_params)
        ref_params = optax.apply_updates(ref_params, upd)
        if rng.random() < 0.5:
            got, err2 = u.update(tb, return_td_error=True)
            m.close(err2, err, 'update-returns-the-td-error', rtol=1e-3, atol=1e-4)
            m.true(set(got) == set(metrics), 'update-returns-the-metrics')
            for k in got:
                m.close(got[k], metrics[k], 'update-returns-the-metrics', k, rtol=1e-3, atol=1e-4)
            m.ev('updates')
        else:
            u.apply_grads(grads, state)
            m.ev('split-updates')
        m.tree_close(f.params, ref_params, 'parameters-follow-the-optimizer', su.describe(), kind, rtol=1e-3, atol=2e-5)
        m.tree_close(f.function_state, state, 'state-is-the-new-state')
        m.tree_close(u.optimizer_state, ref_opt, 'optimizer-state-follows', rtol=1e-3, atol=2e-5)
        # re-synchronise bitwise: rounding must not accumulate in the comparison
        f.params, u.optimizer_state = ref_params, ref_opt
        for x, b in zip(others, others_before):
            m.true(bits_equal(snap(x.f), b), 'other-functions-untouched', type(x.f).__name__, su.describe())
            m.ev('untouched-functions')
        m.true(bits_equal(tb, tb_before), 'batch-untouched')
        m.nontrivial(su.describe(), kind, step)
    # a poisoned batch: refused, and nothing moves
    tb = batch(rng, su.obs, su.act, size)
    where = pick(rng, ['Rn', 'W'])
    setattr(tb, where, getattr(tb, where).copy())
    getattr(tb, where)[int(rng.integers(size))] = onp.nan
    before, opt_before = snap(f), jax.tree_util.tree_map(onp.array, u.optimizer_state)
    grads = u.grads_and_metrics(tb)[0]
    if any(onp.isnan(onp.asarray(g)).any() for g in jax.tree_util.tree_leaves(grads)):
        m.raises(RuntimeError, lambda: u.update(tb), 'nan-gradients-refused', where, su.describe())
        m.true(bits_equal(snap(f), before), 'refused-update-leaves-the-parameters', where)
        m.true(bits_equal(u.optimizer_state, opt_before), 'refused-update-leaves-the-optimizer')
        m.ev('nan-updates')
    m.sample(config=su.describe(), optimizer=kind)


@scenario(quick=12, thorough=150, floor={'setters': 40})
def setters(m):
    rng = m.rng
    su = make(rng, False, optax.adam(0.05))
    u, f = su.td, su.main.f
    for _ in range(int(rng.integers(3))):
        u.update(batch(rng, su.obs, su.act, 4))         # moments of the optimizer
    st = jax.tree_util.tree_map(onp.array, u.optimizer_state)
    m.raises(AttributeError, lambda: setattr(u, 'optimizer', optax.sgd(0.1)), 'incompatible-optimizer-refused')
    m.raises(AttributeError, lambda: setattr(u, 'optimizer_state', optax.sgd(0.1).init(f.params)),
             'incompatible-optimizer-state-refused')
    m.true(bits_equal(u.optimizer_state, st), 'refused-setter-has-no-effect')
    other = optax.adam(0.2)
    u.optimizer = other
    m.true(bits_equal(u.optimizer_state, st), 'optimizer-state-kept')
    tb = batch(rng, su.obs, su.act, 4)
    grads, state, _, _ = u.grads_and_metrics(tb)
    upd, ref = other.update(grads, st, f.params)
    want = optax.apply_updates(f.params, upd)
    u.update(tb)
    m.tree_close(f.params, want, 'new-optimizer-is-used', rtol=1e-3, atol=2e-5)
    zero = jax.tree_util.tree_map(jnp.zeros_like, u.optimizer_state)
    u.optimizer_state = zero
    m.true(bits_equal(u.optimizer_state, zero), 'optimizer-state-is-set')
    p = jax.tree_util.tree_map(onp.array, f.params)
    m.raises(TypeError, lambda: setattr(f, 'params', {'x': jnp.zeros(3)}), 'bad-params-refused')
    m.raises(TypeError, lambda: setattr(f, 'function_state', {'x': jnp.zeros(3)}), 'bad-state-refused')
    m.true(bits_equal(f.params, p), 'refused-params-have-no-effect')
    m.ev('setters', 5)
    m.nontrivial(su.describe())
    m.sample(config=su.describe())


@scenario(quick=16, thorough=300, floor={'partial-nan-gradients': 8})
def sparse_nan(m):
    """a single poisoned transition that reaches a few entries of the gradient only"""
    from vmon import sparse
    sparse.td_case(m)
