"""C17: a policy update is a gradient step on the documented objective and touches nothing else."""
import jax
import numpy as onp
import optax

from vmon import scenario
from vmon.gen import pick
from vmon.pg import OBJECTIVES, PGSetup


def tmap(f, *t):
    return jax.tree_util.tree_map(f, *t)


def tleaves(t):
    return jax.tree_util.tree_leaves(t)


def snap(f):
    return tmap(lambda x: onp.array(x), (f.params, f.function_state))


def bits_equal(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(onp.array_equal(onp.asarray(x), onp.asarray(y), equal_nan=True) for x, y in zip(la, lb))


def optimizer(rng):
    k = pick(rng, ['sgd', 'momentum', 'adam', 'chain'])
    lr = float(rng.uniform(0.01, 0.1))
    return k, {'sgd': optax.sgd(lr), 'momentum': optax.sgd(lr, momentum=0.9), 'adam': optax.adam(lr),
               'chain': optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(lr))}[k]


def metric(m, metrics, name):
    hits = [k for k in metrics if k.endswith('/' + name)]
    m.true(len(hits) == 1, 'metric-is-reported', name, sorted(metrics))
    return metrics[hits[0]]


def compare_loss(m, su, tb, adv, metrics):
    want, bare = su.loss(tb, adv)
    tol = dict(rtol=2e-3, atol=2e-3 * (1 + abs(bare)) if su.kind == 'SoftPG' else 2e-3)
    m.close(metric(m, metrics, 'loss_bare'), bare, 'bare-loss-is-minus-the-objective', su.describe(), **tol)
    m.close(metric(m, metrics, 'loss'), want, 'loss-is-objective-plus-regularizer', su.describe(), **tol)
    if su.kind != 'SoftPG':
        lp = su.terms(tb, adv)[1]
        old = tb.logP.astype('float64')
        scale = onp.abs(onp.exp(old) * (onp.abs(old) + onp.abs(lp))).mean()
        m.close(metric(m, metrics, 'kl_div_old'), (onp.exp(old) * (old - lp)).mean(), 'kl-metric', su.describe(),
                rtol=1e-3, atol=1e-4 * (1 + scale))
    m.ev('losses')


def directional(m, su, tb, adv, grads):
    rng = m.rng
    p64 = tmap(lambda x: onp.asarray(x, 'float64'), su.pi.f.params)
    for _ in range(3):
        v = tmap(lambda x: rng.normal(size=x.shape), p64)
        h = 1e-5
        fd = (su.loss(tb, adv, tmap(lambda a, b: a + h * b, p64, v))[0]
              - su.loss(tb, adv, tmap(lambda a, b: a - h * b, p64, v))[0]) / (2 * h)
        prod = [onp.asarray(g, 'float64') * w for g, w in zip(tleaves(grads), tleaves(v))]
        dot, mag = sum(x.sum() for x in prod), sum(onp.abs(x).sum() for x in prod)
        m.true(abs(dot - fd) <= 1e-2 * (0.05 + mag), 'gradient-of-the-loss',
               f'<grads,v>={dot} finite-difference={fd} magnitude={mag}', su.describe())
        m.ev('directional-derivatives')


@scenario(quick=56, thorough=1500, floor={'directional-derivatives': 250, 'losses': 100, 'states': 20})
def objective(m):
    rng = m.rng
    su = PGSetup(rng, OBJECTIVES[m.index % 4])
    m.log(su.describe())
    for _ in range(3):
        su.randomize(rng)
        size = int(pick(rng, [1, 4, 6]))
        tb, adv = su.data(rng, size)
        ok = su.terms(tb, adv)[2]
        if not ok.all():
            continue
        if su.kind == 'PPOClip' and rng.random() < 0.5:        # hyperparameters are live
            su.po.epsilon = su.eps = float(rng.uniform(0.05, 0.6))
            if not su.terms(tb, adv)[2].all():
                continue
        if su.reg is not None and rng.random() < 0.5:
            su.reg.beta = float(rng.uniform(0, 2))
        before = snap(su.pi.f)
        qfed = su.kind in ('DeterministicPG', 'SoftPG')
        if qfed:
            grads, state, metrics = su.po.grads_and_metrics(tb)
        else:
            grads, state, metrics = su.po.grads_and_metrics(tb, adv)
        m.true(bits_equal(snap(su.pi.f), before), 'computing-gradients-has-no-effect')
        m.true(jax.tree_util.tree_structure(grads) == jax.tree_util.tree_structure(su.pi.f.params),
               'gradient-structure')
        compare_loss(m, su, tb, adv, metrics)
        if all(onp.isfinite(onp.asarray(g)).all() for g in tleaves(grads)):
            # a categorical mode is a sharp softmax: its finite differences are ill-conditioned
            if not (su.kind == 'DeterministicPG' and su.act.kind == 'disc'):
                directional(m, su, tb, adv, grads)
        else:
            m.fail('finite-gradients', str(su.describe()))
        if su.stateful:
            n0 = float(onp.asarray(tleaves(su.pi.f.function_state)[0]))
            m.eq(float(onp.asarray(tleaves(state)[0])), n0 + 1, 'state-advanced-once-in-training-mode')
            m.ev('states')
        m.nontrivial(su.describe(), size)
    m.sample(config=su.describe())


@scenario(quick=32, thorough=900, floor={'updates': 30, 'split-updates': 20, 'untouched-functions': 20,
                                         'nan-updates': 6})
def policy_isolation(m):
    rng = m.rng
    kind, opt = optimizer(rng)
    su = PGSetup(rng, OBJECTIVES[m.index % 4], optimizer=opt)
    po, f = su.po, su.pi.f
    m.log(su.describe(), kind)
    ref_params, ref_opt = f.params, opt.init(f.params)
    for step in range(4):
        tb, adv = su.data(rng, 4)
        tb0, q0 = tmap(onp.array, tb), [snap(q.f) for q in su.qs]
        grads, state, metrics = po.grads_and_metrics(tb, adv)
        if not all(onp.isfinite(onp.asarray(g)).all() for g in tleaves(grads)):
            continue
        if su.kind == 'SoftPG' or rng.random() < 0.5:
            po.apply_grads(grads, state)
            m.ev('split-updates')
        else:
            got = po.update(tb, adv)
            m.true(set(got) == set(metrics), 'update-returns-the-metrics')
            for k in got:
                m.close(got[k], metrics[k], 'update-returns-the-metrics', k, rtol=1e-3, atol=1e-4)
            m.ev('updates')
        upd, ref_opt = opt.update(grads, ref_opt, ref_params)
        ref_params = optax.apply_updates(ref_params, upd)
        m.tree_close(f.params, ref_params, 'parameters-follow-the-optimizer', su.describe(), kind, rtol=1e-3, atol=2e-5)
        m.tree_close(f.function_state, state, 'state-is-the-new-state')
        m.tree_close(po.optimizer_state, ref_opt, 'optimizer-state-follows', rtol=1e-3, atol=2e-5)
        f.params, po.optimizer_state = ref_params, ref_opt
        for q, b in zip(su.qs, q0):
            m.true(bits_equal(snap(q.f), b), 'q-functions-untouched', su.describe())
            m.ev('untouched-functions')
        m.true(bits_equal(tb, tb0), 'batch-untouched')
        m.nontrivial(su.describe(), kind, step)
    tb, adv = su.data(rng, 4)
    bad = int(rng.integers(4))
    if su.kind in ('VanillaPG', 'PPOClip') and rng.random() < 0.5:
        adv = adv.copy()
        adv[bad] = onp.nan
    else:
        tb.W = tb.W.copy()
        tb.W[bad] = onp.nan
    before, opt0 = snap(f), tmap(onp.array, po.optimizer_state)
    if any(onp.isnan(onp.asarray(g)).any() for g in tleaves(po.grads_and_metrics(tb, adv)[0])):
        m.raises(RuntimeError, lambda: po.update(tb, adv), 'nan-gradients-refused', su.describe())
        m.true(bits_equal(snap(f), before), 'refused-update-leaves-the-parameters')
        m.true(bits_equal(po.optimizer_state, opt0), 'refused-update-leaves-the-optimizer')
        m.ev('nan-updates')
    m.sample(config=su.describe(), optimizer=kind)


@scenario(quick=8, thorough=120, floor={'policy-setters': 8})
def policy_setters(m):
    rng = m.rng
    su = PGSetup(rng, pick(rng, ['VanillaPG', 'PPOClip', 'DeterministicPG']), optimizer=optax.adam(0.05))
    po, f = su.po, su.pi.f
    for _ in range(int(rng.integers(3))):
        tb, adv = su.data(rng, 4)
        if all(onp.isfinite(onp.asarray(g)).all() for g in tleaves(po.grads_and_metrics(tb, adv)[0])):
            po.update(tb, adv)
    st = jax.tree_util.tree_map(onp.array, po.optimizer_state)
    m.raises(AttributeError, lambda: setattr(po, 'optimizer', optax.sgd(0.1)), 'incompatible-optimizer-refused')
    other = optax.adam(0.2)
    po.optimizer = other
    m.true(bits_equal(po.optimizer_state, st), 'optimizer-state-kept')
    tb, adv = su.data(rng, 4)
    grads = po.grads_and_metrics(tb, adv)[0]
    if not all(onp.isfinite(onp.asarray(g)).all() for g in tleaves(grads)):
        return
    upd, ref = other.update(grads, st, f.params)
    want = optax.apply_updates(f.params, upd)
    po.update(tb, adv)
    m.tree_close(f.params, want, 'new-optimizer-is-used', rtol=1e-3, atol=2e-5)
    m.ev('policy-setters')
    m.nontrivial(su.describe())
    m.sample(config=su.describe())


@scenario(quick=12, thorough=200, floor={'soft-samples': 12})
def soft_sampling(m):
    """the soft objective averages the smallest q over actions drawn from the policy"""
    rng = m.rng
    from vmon.models import Act, Obs, PiModel, QModel
    from vmon.pg import no_training_shift
    import coax
    obs, act = Obs(rng), Act(rng, 'box')
    lv = float(rng.uniform(-2, 1))
    pi = PiModel(rng, obs, act, logvar=lv)
    qs = [QModel(rng, obs, act, modeltype=1) for _ in range(int(rng.integers(1, 3)))]
    for q in qs:
        no_training_shift(q)
    po = coax.policy_objectives.SoftPG(pi.f, [q.f for q in qs])
    N = 4096
    s = obs.sample(rng, 1)
    S = tmap(lambda x: onp.repeat(x, N, 0), s)
    from vmon.models import batch
    tb = batch(rng, obs, act, N)
    tb.S, tb.W = S, onp.ones(N, 'float32')
    got = -float(metric(m, po.grads_and_metrics(tb)[2], 'loss_bare'))
    mu = pi.dist(S, training=True)['mu']
    a = mu + onp.exp(lv / 2) * rng.normal(size=mu.shape)
    ref = onp.min([q.raw1(S, a) for q in qs], 0)
    se = ref.std() * onp.sqrt(2 / N) + 1e-6
    m.true(abs(got - ref.mean()) < 6.5 * se, 'soft-objective-averages-over-the-policy',
           f'got={got} want={ref.mean()} se={se}')
    again = -float(metric(m, po.grads_and_metrics(tb)[2], 'loss_bare'))
    if ref.std() > 1e-2:
        m.true(again != got, 'fresh-samples-each-time')
    m.ev('soft-samples')
    m.nontrivial(obs.kind, act.dim, len(qs))
    m.sample(got=got, want=ref.mean(), se=se)


@scenario(quick=8, thorough=60, floor={'refusals': 8})
def constructor_domain(m):
    rng = m.rng
    import coax
    su = PGSetup(rng, 'DeterministicPG')
    P = coax.policy_objectives
    m.raises(TypeError, lambda: P.VanillaPG(su.qs[0].f), 'non-policy-refused')
    m.raises(TypeError, lambda: P.VanillaPG(su.pi.f, regularizer=lambda *a: 0), 'non-regularizer-refused')
    m.raises(TypeError, lambda: P.DeterministicPG(su.pi.f, su.pi.f), 'non-q-refused')
    m.raises(ValueError, lambda: P.SoftPG(su.pi.f, []), 'empty-q-list-refused')
    m.raises(TypeError, lambda: P.SoftPG(su.pi.f, [su.pi.f]), 'non-q-in-list-refused')
    m.ev('refusals')
    m.nontrivial(su.describe())


@scenario(quick=16, thorough=300, floor={'partial-nan-gradients': 8})
def sparse_nan(m):
    """a single poisoned transition that reaches a few entries of the gradient only"""
    from vmon import sparse
    sparse.pg_case(m)
