"""Float64 oracle for the policy objectives and their regularizers."""
import jax
import numpy as onp

import coax
from vmon.gen import pick
from vmon.models import Act, DistModel, Identity, Obs, PiModel, QModel, Transform, log_softmax

OBJECTIVES = ['VanillaPG', 'PPOClip', 'DeterministicPG', 'SoftPG']


def no_training_shift(model):
    """Make a model behave alike in training and evaluation mode."""
    model.f.params = jax.tree_util.tree_map_with_path(
        lambda path, p: p * 0 if str(getattr(path[-1], 'key', '')).endswith('_t') else p, model.f.params)


class PGSetup:
    def __init__(self, rng, kind=None, optimizer=None, reg=None):
        self.kind = kind = kind or pick(rng, OBJECTIVES)
        self.obs = Obs(rng, img=True, rich=True)
        qfed = kind in ('DeterministicPG', 'SoftPG')
        self.act = Act(rng, 'box' if kind == 'SoftPG' else None, rich=True)
        self.stateful = bool(rng.random() < 0.5)
        self.pi = PiModel(rng, self.obs, self.act, stateful=self.stateful,
                          logvar=-40.0 if kind == 'SoftPG' else None)
        self.qs = []
        if qfed:
            for _ in range(1 if kind == 'DeterministicPG' else int(rng.integers(1, 4))):
                tr = Transform(rng) if rng.random() < 0.5 else None
                if rng.random() < 0.6:
                    q = QModel(rng, self.obs, self.act, modeltype=1, stateful=self.stateful, transform=tr)
                else:
                    q = DistModel(rng, self.obs, self.act, modeltype=1, stateful=self.stateful, transform=tr)
                q.tr = tr or Identity()
                self.qs.append(q)
        self.reg_kind = reg or pick(rng, ['none', 'entropy', 'kl'])
        self.reg = None
        if self.reg_kind != 'none':
            cls = {'entropy': coax.regularizers.EntropyRegularizer,
                   'kl': coax.regularizers.KLDivRegularizer}[self.reg_kind]
            self.reg = cls(self.pi.f, beta=float(rng.uniform(0.05, 2)))
        kw = dict(optimizer=optimizer, regularizer=self.reg)
        cls = getattr(coax.policy_objectives, kind)
        if kind == 'PPOClip':
            self.eps = float(rng.uniform(0.05, 0.6))
            self.po = cls(self.pi.f, epsilon=self.eps, **kw)
        elif kind == 'DeterministicPG':
            self.po = cls(self.pi.f, self.qs[0].f, **kw)
        elif kind == 'SoftPG':
            self.po = cls(self.pi.f, [q.f for q in self.qs], **kw)
        else:
            self.po = cls(self.pi.f, **kw)
        self.randomize(rng)

    def describe(self):
        return (self.kind, self.obs.kind, self.act.kind, self.stateful, self.reg_kind,
                tuple((type(q).__name__, q.tr.kind) for q in self.qs))

    def randomize(self, rng):
        self.pi.randomize(rng)
        for q in self.qs:
            q.randomize(rng)
            no_training_shift(q)

    def data(self, rng, size):
        """(transition batch, advantages) with behaviour propensities around those of the policy."""
        from vmon.models import batch
        tb = batch(rng, self.obs, self.act, size)
        if self.kind in ('VanillaPG', 'PPOClip'):
            lp = self.pi.logp(tb.S, self.act.feat(tb.A), training=True)
            tb.logP = (lp + rng.normal(0, 0.5 if rng.random() < 0.6 else 2.5, size)).astype('float32')
        adv = rng.normal(0, 1.5, size).astype('float32')
        return tb, adv

    def terms(self, tb, adv, params=None):
        """(J per row, log pi per row, rows away from a kink of the objective)"""
        kw = {} if params is None else {'params': params}
        ok = onp.ones(len(tb.Rn), bool)
        if self.kind in ('VanillaPG', 'PPOClip'):
            lp = self.pi.logp(tb.S, self.act.feat(tb.A), training=True, **kw)
            ok = onp.abs(lp) < 40          # float32 rounding of log pi is amplified by the ratio
            if self.kind == 'VanillaPG':
                return adv * lp, lp, ok
            rho = onp.exp(lp - tb.logP.astype('float64'))
            bar = onp.clip(rho, 1 - self.eps, 1 + self.eps)
            ok &= (onp.abs(rho - 1 + self.eps) > 2e-3) & (onp.abs(rho - 1 - self.eps) > 2e-3)
            return onp.minimum(rho * adv, bar * adv), lp, ok
        d = self.pi.dist(tb.S, training=True, **kw)
        if self.act.kind == 'disc':
            z = log_softmax(d['logits']) / coax.proba_dists.CategoricalDist(self.act.space).gumbel_softmax_tau
            A = onp.exp(log_softmax(z))
        else:
            A = d['mu']
        vals = []
        for q in self.qs:
            if isinstance(q, DistModel):
                v = q.mean(q.d1(tb.S, A))
            else:
                v = q.raw1(tb.S, A)
            vals.append(q.tr.f_inv(v))
        vals = onp.stack(vals)
        if len(vals) > 1:
            s = onp.sort(vals, 0)
            ok = s[1] - s[0] > 5e-3
        return vals.min(0), self.pi.logp(tb.S, A, training=True, **kw), ok

    def regularizer(self, tb, params=None):
        kw = {} if params is None else {'params': params}
        if self.reg_kind == 'none':
            return onp.zeros(len(tb.Rn))
        if self.reg_kind == 'entropy':
            return -self.reg.beta * self.pi.entropy(tb.S, **kw)
        return self.reg.beta * self.pi.kl_default(tb.S, **kw)

    def loss(self, tb, adv, params=None):
        W = onp.clip(tb.W.astype('float64'), 0.1, 10)
        J = self.terms(tb, adv, params)[0]
        bare = -(W * J).mean()
        return bare + (W * self.regularizer(tb, params)).mean(), bare
