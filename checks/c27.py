"""C27: a model update is a gradient step on the regression loss towards what was observed, and nothing else."""
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.models import Act, Identity, Obs, QModel, SAModel, Transform, batch, obs_outputs, sigmoid


def tmap(f, *t):
    return jax.tree_util.tree_map(f, *t)


def tleaves(t):
    return jax.tree_util.tree_leaves(t)


def snap(f):
    return tmap(lambda x: onp.array(x), (f.params, f.function_state))


def bits_equal(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(onp.array_equal(onp.asarray(x), onp.asarray(y), equal_nan=True) for x, y in zip(la, lb))


KINDS = ['model', 'smodel', 'reward', 'sreward', 'smodel-disc']
LV = -40.0        # log-variance at which a sample equals its mean up to rounding


def tree_mse(y_true, y_pred, w):
    """a user-defined loss for observations with structure"""
    ls = [jnp.mean(0.5 * (a - b) ** 2, axis=1) for a, b in zip(tleaves(y_true), tleaves(y_pred))]
    return jnp.mean(w * sum(ls))


class MSetup:
    def __init__(self, rng, kind=None, optimizer=None, noise=False):
        self.kind = kind or pick(rng, KINDS)
        self.noise = noise
        self.act = Act(rng, rich=True)
        self.transform = Identity()
        self.stateful = bool(rng.random() < 0.5)
        self.loss_kind = pick(rng, ['mse', 'huber', 'default'])
        self.reg_kind = 'none'
        kw = {}
        if self.kind == 'model':
            self.obs = Obs(rng)
            shapes, build = obs_outputs(self.obs, False)
            cls, pre = coax.TransitionModel, 'default'
            if self.obs.kind == 'dict':
                self.loss_kind = 'tree'
        elif self.kind == 'smodel':
            self.obs = Obs(rng, 'box')
            shapes, build = obs_outputs(self.obs, True)
            b0 = build
            if not noise:
                def build(o):
                    return {'mu': b0(o)['mu'], 'logvar': jnp.full_like(b0(o)['logvar'], LV)}
            cls, pre = coax.StochasticTransitionModel, 'dist'
            self.reg_kind = pick(rng, ['none', 'entropy']) if noise else 'none'
        elif self.kind == 'smodel-disc':
            self.obs = Obs(rng, 'disc')
            shapes, b0 = obs_outputs(self.obs, True)

            def build(o):
                return {'logits': 1e4 * b0(o)['logits']}        # a sample is the mode
            cls, pre = coax.StochasticTransitionModel, 'dist'
        elif self.kind == 'reward':
            self.obs = Obs(rng, rich=True)
            shapes, build = {'out': ()}, lambda o: o['out']
            cls, pre = coax.RewardFunction, 'default'
            if rng.random() < 0.6:
                self.transform = Transform(rng)
                kw['value_transform'] = self.transform.jax
        else:
            self.obs = Obs(rng, rich=True)
            self.bins = int(rng.integers(3, 7))
            shapes = {'logits': (self.bins,)}

            def build(o):
                return {'logits': 1e4 * o['logits']}
            cls, pre = coax.StochasticRewardFunction, 'default'
            self.range = (float(rng.uniform(-4, -1)), float(rng.uniform(1, 4)))
            kw.update(value_range=self.range, num_bins=self.bins)
        self.main = SAModel(rng, cls, self.obs, self.act, shapes, build, stateful=self.stateful, pre=pre, **kw)
        self.reg = None
        if self.reg_kind == 'entropy':
            self.reg = coax.regularizers.EntropyRegularizer(self.main.f, beta=float(rng.uniform(0.1, 2)))
        lossf = {'mse': coax.value_losses.mse, 'huber': coax.value_losses.huber, 'default': None,
                 'tree': tree_mse}[self.loss_kind]
        self.u = coax.model_updaters.ModelUpdater(self.main.f, optimizer, loss_function=lossf, regularizer=self.reg)

    def describe(self):
        return (self.kind, self.obs.kind, self.act.kind, self.main.modeltype, self.stateful, self.transform.kind,
                self.loss_kind, self.reg_kind)

    def outputs(self, tb, params=None):
        kw = {} if params is None else {'params': params}
        return self.main.at(tb.S, self.act.feat(tb.A), True, **kw)

    def pairs(self, tb, params=None):
        """[(y_true, y_pred)] per leaf, each (batch, k); None when a row is ill-conditioned"""
        o = self.outputs(tb, params)
        Sn = tb.S_next
        if self.kind == 'reward':
            return [(self.transform.f(tb.Rn.astype('float64')), o['out'])]
        if self.kind == 'sreward':
            lo, hi = self.range
            x = (tb.Rn.astype('float64') - lo) * self.bins / (hi - lo)
            if onp.any(onp.abs(x - onp.round(x)) < 1e-4):
                return None
            y = onp.eye(self.bins)[onp.clip(onp.floor(x).astype(int), 0, self.bins - 1)]
            return self.onehot(y, o['logits'])
        if self.kind == 'smodel-disc':
            return self.onehot(onp.eye(self.obs.n)[onp.asarray(Sn)], o['logits'])
        if self.kind == 'smodel':
            return [(self.obs.dist_feat(Sn), o['mu'])]
        if self.obs.kind == 'box':
            return [(onp.asarray(Sn, 'float64'), o['mu'])]
        if self.obs.kind == 'disc':
            return [(onp.eye(self.obs.n)[onp.asarray(Sn)], o['logits'])]
        return [(onp.asarray(Sn['a'], 'float64'), o['mu']), (onp.eye(self.obs.n)[onp.asarray(Sn['b'])], o['logits'])]

    def onehot(self, y, logits):
        s = onp.sort(logits, 1)
        if onp.any(s[:, -1] - s[:, -2] < 2e-2):
            return None
        return [(y, onp.eye(logits.shape[1])[logits.argmax(1)])]

    def loss(self, tb, params=None):
        W = onp.clip(tb.W.astype('float64'), 0.1, 10)
        pairs = self.pairs(tb, params)
        if pairs is None:
            return None
        out = 0.0
        for y, p in pairs:
            e = onp.abs(y - p)
            l = 0.5 * e ** 2 if self.loss_kind in ('mse', 'tree') else onp.where(e <= 1, 0.5 * e ** 2, e - 0.5)
            out += (W * l.reshape(len(W), -1).mean(1)).mean()
        return out


def metric(m, metrics, name):
    hits = [k for k in metrics if k.endswith('/' + name)]
    m.true(len(hits) == 1, 'metric-is-reported', name, sorted(metrics))
    return metrics[hits[0]]


@scenario(quick=60, thorough=1500, floor={'losses': 70, 'directional-derivatives': 80, 'states': 20})
def gradient(m):
    rng = m.rng
    su = MSetup(rng, KINDS[m.index % len(KINDS)])
    f = su.main.f
    m.log(su.describe())
    for _ in range(3):
        su.main.randomize(rng)
        size = int(pick(rng, [1, 4, 6]))
        tb = batch(rng, su.obs, su.act, size, rscale=pick(rng, [1, 1, 30]))
        want = su.loss(tb)
        if want is None:
            continue
        before, tb0 = snap(f), tmap(onp.array, tb)
        grads, state, metrics = su.u.grads_and_metrics(tb)
        m.true(bits_equal(snap(f), before) and bits_equal(tmap(onp.array, tb), tb0),
               'computing-gradients-has-no-effect')
        tol = dict(rtol=2e-3, atol=2e-3)
        m.close(metric(m, metrics, 'loss'), want, 'loss-is-the-weighted-regression-loss', su.describe(), **tol)
        m.close(metric(m, metrics, 'loss_bare'), want, 'bare-loss', su.describe(), **tol)
        m.ev('losses')
        flat = onp.concatenate([onp.ravel(onp.asarray(g, 'float64')) for g in tleaves(grads)])
        m.close(metric(m, metrics, 'grads_max'), onp.abs(flat).max(), 'grads-max', rtol=1e-3, atol=1e-4)
        m.close(metric(m, metrics, 'grads_norm'), onp.sqrt((flat ** 2).sum()), 'grads-norm', rtol=1e-3, atol=1e-4)
        m.true(jax.tree_util.tree_structure(grads) == jax.tree_util.tree_structure(f.params), 'gradient-structure')
        if su.kind in ('model', 'smodel', 'reward'):
            p64 = tmap(lambda x: onp.asarray(x, 'float64'), f.params)
            for _ in range(3):
                v = tmap(lambda x: rng.normal(size=x.shape), p64)
                h = 1e-5
                fd = (su.loss(tb, tmap(lambda a, b: a + h * b, p64, v))
                      - su.loss(tb, tmap(lambda a, b: a - h * b, p64, v))) / (2 * h)
                prod = [onp.asarray(g, 'float64') * w for g, w in zip(tleaves(grads), tleaves(v))]
                dot, mag = sum(x.sum() for x in prod), sum(onp.abs(x).sum() for x in prod)
                m.true(abs(dot - fd) <= 1e-2 * (0.05 + mag), 'gradient-of-the-loss', f'{dot} {fd} {mag}',
                       su.describe())
                m.ev('directional-derivatives')
        if su.stateful:
            n0 = float(onp.asarray(tleaves(f.function_state)[0]))
            m.eq(float(onp.asarray(tleaves(state)[0])), n0 + 1, 'state-advanced-once-in-training-mode')
            m.ev('states')
        m.nontrivial(su.describe(), size)
    m.sample(config=su.describe())


@scenario(quick=40, thorough=900, floor={'updates': 60, 'nan-updates': 8, 'split-updates': 30})
def isolation(m):
    rng = m.rng
    k = pick(rng, ['sgd', 'momentum', 'adam', 'chain'])
    lr = float(rng.uniform(0.01, 0.1))
    opt = {'sgd': optax.sgd(lr), 'momentum': optax.sgd(lr, momentum=0.9), 'adam': optax.adam(lr),
           'chain': optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(lr))}[k]
    su = MSetup(rng, pick(rng, ['model', 'smodel', 'reward']), opt)
    u, f = su.u, su.main.f
    other = QModel(rng, su.obs, su.act).f
    other_before = snap(other)
    ref_p, ref_o = f.params, opt.init(f.params)
    m.log(su.describe(), k)
    for step in range(4):
        tb = batch(rng, su.obs, su.act, 4)
        tb0 = tmap(onp.array, tb)
        if rng.random() < 0.2:
            bad = batch(rng, su.obs, su.act, 4)
            bad.W = onp.full(4, onp.nan, 'float32')
            b0, o0 = snap(f), tmap(onp.array, u.optimizer_state)
            m.raises(RuntimeError, lambda: u.update(bad), 'nan-gradients-refused')
            m.true(bits_equal(snap(f), b0) and bits_equal(tmap(onp.array, u.optimizer_state), o0),
                   'refused-update-has-no-effect')
            m.ev('nan-updates')
        grads, state, _ = u.grads_and_metrics(tb)
        if su.kind == 'smodel':       # the sampled noise (1e-9) differs between calls
            tol = dict(rtol=1e-3, atol=1e-4)
        else:
            tol = dict(rtol=1e-5, atol=1e-6)
        upd, ref_o = opt.update(grads, ref_o, ref_p)
        ref_p = optax.apply_updates(ref_p, upd)
        if rng.random() < 0.5:
            u.update(tb)
        else:
            u.apply_grads(grads, state)
            m.ev('split-updates')
        m.tree_close(f.params, ref_p, 'exactly-one-optimizer-step', su.describe(), k, step, **tol)
        m.tree_close(u.optimizer_state, ref_o, 'optimizer-state', **tol)
        m.tree_eq(f.function_state, state, 'function-state-stored')
        m.true(bits_equal(tmap(onp.array, tb), tb0), 'batch-untouched')
        m.true(bits_equal(snap(other), other_before), 'other-functions-untouched')
        ref_p, ref_o = f.params, u.optimizer_state
        m.ev('updates')
        if k == 'sgd' and rng.random() < 0.5:
            opt = optax.sgd(lr * 3)
            u.optimizer = opt
            m.true(u.optimizer == opt, 'optimizer-replaced')
            m.true(bits_equal(u.optimizer_state, ref_o), 'optimizer-state-kept')
    wrong = optax.adam(0.1) if k != 'adam' else optax.sgd(0.1, momentum=0.5)
    m.raises(AttributeError, lambda: setattr(u, 'optimizer', wrong), 'mismatching-optimizer-refused')
    m.raises(AttributeError, lambda: setattr(u, 'optimizer_state', {'no': 1}), 'mismatching-state-refused')
    m.tree_eq(u.optimizer_state, ref_o, 'refused-optimizer-has-no-effect')
    m.raises(TypeError, lambda: coax.model_updaters.ModelUpdater(other), 'only-dynamics-models')
    m.nontrivial(su.describe(), k)


@scenario(quick=12, thorough=200, floor={'noisy-losses': 1500})
def sampled_predictions(m):
    """stochastic models regress fresh samples of their prediction: mean loss over many calls"""
    rng = m.rng
    su = MSetup(rng, 'smodel', noise=True)
    if su.loss_kind == 'default' or su.loss_kind == 'huber':
        su.u = coax.model_updaters.ModelUpdater(su.main.f, loss_function=coax.value_losses.mse, regularizer=su.reg)
        su.loss_kind = 'mse'
    tb = batch(rng, su.obs, su.act, 4)
    o = su.outputs(tb)
    y = su.obs.dist_feat(tb.S_next)
    W = onp.clip(tb.W.astype('float64'), 0.1, 10)[:, None]
    lv = onp.clip(o['logvar'], -20, 20)
    var = onp.exp(lv)
    e = y - o['mu']
    want = (W * 0.5 * (e ** 2 + var)).mean()
    # variance of 0.5 W (e + s x)^2 for standard normal x
    v = (W ** 2 * 0.25 * (2 * var ** 2 + 4 * e ** 2 * var)).sum() / e.size ** 2
    N = 200
    got, tot = [], []
    for _ in range(N):
        _, _, metrics = su.u.grads_and_metrics(tb)
        got.append(float(metric(m, metrics, 'loss_bare')))
        tot.append(float(metric(m, metrics, 'loss')))
    m.ev('noisy-losses', N)
    m.true(len(set(got)) > N // 2, 'fresh-noise-in-every-call')
    # the estimator is skewed (chi-square): generous bound
    m.true(abs(onp.mean(got) - want) <= 9 * onp.sqrt(v / N) + 2e-3 * (1 + want), 'expected-loss', onp.mean(got), want,
           onp.sqrt(v / N), su.describe())
    if su.reg is not None:
        H = 0.5 * (onp.log(2 * onp.pi) + lv + 1).sum(1)
        reg = (W[:, 0] * -su.reg.beta * H).mean()
        m.close(onp.array(tot) - onp.array(got), onp.full(N, reg), 'regularizer-added', su.describe(), rtol=1e-2,
                atol=1e-2 * (1 + abs(want)))
        m.ev('regularized')
    m.nontrivial(su.describe())
    m.sample(config=su.describe(), want=want, got=onp.mean(got))


@scenario(quick=10, thorough=150, floor={'fits': 10})
def learns_the_dynamics(m):
    """repeated updates drive the model to what was observed"""
    rng = m.rng
    kind = pick(rng, ['model', 'reward'])
    obs, act = Obs(rng, 'box'), Act(rng, 'disc')
    tr = Transform(rng, 'log') if kind == 'reward' and rng.random() < 0.5 else None
    import haiku as hk
    from vmon.models import env
    mt = int(rng.integers(1, 3))
    out = obs.d if kind == 'model' else None

    def f1(S, A, is_training):
        x = jnp.concatenate([S, A, S[:, :1] * A], axis=1)
        return hk.Linear(out)(x) if out else jnp.ravel(hk.Linear(1)(x))

    def f2(S, is_training):
        y = hk.Linear(act.n * (out or 1))(S)
        return y.reshape(-1, act.n, out) if out else y
    cls = coax.TransitionModel if kind == 'model' else coax.RewardFunction
    f = cls(f1 if mt == 1 else f2, env(obs, act), random_seed=1, **({'value_transform': tr.jax} if tr else {}))
    M = rng.normal(size=(act.n, obs.d))
    u = coax.model_updaters.ModelUpdater(f, optax.adam(optax.exponential_decay(0.1, 60, 0.6)), loss_function=coax.value_losses.mse)

    def data(n):
        tb = batch(rng, obs, act, n)
        z = 0.5 * obs.dist_feat(tb.S) + 0.5 * M[tb.A]        # linear in the model's own coordinates
        tb.S_next = (6 * sigmoid(z) - 3).astype('float32')
        z = 0.3 * tb.S.sum(1) + M[tb.A, 0]
        tb.Rn = (tr.f_inv(z) if tr else z).astype('float32')
        tb.W = onp.ones(n, 'float32')
        return tb
    for _ in range(600):
        u.update(data(16))
    tb = data(20)
    for i in range(20):
        got = f(tb.S[i], int(tb.A[i]))
        want = tb.S_next[i] if kind == 'model' else tb.Rn[i]
        m.true(onp.all(onp.abs(got - want) <= 0.15 + 0.15 * onp.abs(want)), 'model-learns-the-dynamics', got, want,
               kind, mt, tr is not None)
    m.ev('fits')
    m.nontrivial(kind, mt, tr is not None, obs.d, act.n)


@scenario(quick=16, thorough=300, floor={'partial-nan-gradients': 8})
def sparse_nan(m):
    """a single poisoned transition that reaches a few entries of the gradient only"""
    from vmon import sparse
    sparse.model_case(m)
