"""Float64 oracle for distributional TD targets (categorical projection and quantiles)."""
import numpy as onp

import coax
from vmon.gen import pick
from vmon.models import Act, DistModel, Identity, Obs, PiModel, Transform, log_softmax
from vmon.td import greedy, softmax

ALGOS = ['SimpleTD', 'Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning',
         'SoftClippedDoubleQLearning']


def project(p, atoms, scale, shift, tr):
    """C51 projection of f(scale * f_inv(z) + shift) on the atoms; p: (batch, bins)."""
    B, K = p.shape
    dz = atoms[1] - atoms[0]
    out = onp.zeros_like(p)
    for i in range(B):
        Tz = onp.clip(tr.f(scale[i] * tr.f_inv(atoms) + shift[i]), atoms[0], atoms[-1])
        b = onp.clip((Tz - atoms[0]) / dz, 0, K - 1)
        for j in range(K):
            l = min(int(onp.floor(b[j])), K - 2)
            frac = b[j] - l
            out[i, l] += p[i, j] * (1 - frac)
            out[i, l + 1] += p[i, j] * frac
    return out


class DSetup:
    tied = False

    def __init__(self, rng, algo=None, optimizer=None, reg=None, kind=None, stateful=None):
        self.algo = algo = algo or pick(rng, ALGOS)
        self.obs, self.act = Obs(rng, img=True, rich=True), Act(rng, 'disc' if algo == 'ExpectedSarsa' else None, rich=True)
        self.transform = Transform(rng) if rng.random() < 0.5 else Identity()
        tr = self.transform if self.transform.kind != 'none' else None
        self.stateful = bool(rng.random() < 0.5) if stateful is None else stateful
        self.kind = 'cat' if algo == 'SimpleTD' else (kind or pick(rng, ['cat', 'quant']))
        # every function may have its own observation preprocessor
        self.hetero = bool(rng.random() < 0.3) and 'Double' not in algo   # (those stack the networks)
        self.main = DistModel(rng, self.obs, None if algo == 'SimpleTD' else self.act,
                              stateful=self.stateful, transform=tr, kind=self.kind, pscale=self.pscale(rng))
        self.targs, self.own_target, self.pis = [self.main], True, []
        clipped = 'Clipped' in algo
        n_targ = int(rng.integers(2, 4)) if clipped else int(rng.random() < 0.75)
        if n_targ:
            self.targs, self.own_target = [self.main.like() for _ in range(n_targ)], False
            if self.hetero:
                self.targs = [DistModel(
                    rng, self.obs, self.main.act, modeltype=self.main.modeltype, stateful=self.stateful,
                    transform=tr, kind=self.kind, bins=self.main.bins, pscale=self.pscale(rng), like=self.main)
                    for _ in range(n_targ)]
        if self.act.kind == 'box' and algo not in ('SimpleTD', 'Sarsa'):
            n = int(rng.integers(1, 3)) if clipped else 1
            self.pis = [PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful,
                                logvar=-40. if algo.startswith('Soft') else None) for _ in range(n)]
        if algo == 'ExpectedSarsa':
            self.pis = [PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful)]
        self.reg_kind = reg or pick(rng, ['none', 'none', 'entropy', 'kl'])
        self.reg = self.reg_pi = None
        if self.reg_kind != 'none':
            self.reg_pi = PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful)
            cls = coax.regularizers.EntropyRegularizer if self.reg_kind == 'entropy' else \
                coax.regularizers.KLDivRegularizer
            self.reg = cls(self.reg_pi.f, beta=float(rng.uniform(0.05, 1)))
        common = dict(loss_function=coax.value_losses.mse, policy_regularizer=self.reg, optimizer=optimizer)
        t = None if self.own_target else self.targs[0].f
        cls = getattr(coax.td_learning, algo)
        if algo == 'SimpleTD':
            self.td = cls(self.main.f, v_targ=t, **common)
        elif algo == 'Sarsa':
            self.td = cls(self.main.f, q_targ=t, **common)
        elif clipped:
            self.td = cls(self.main.f, pi_targ_list=[p.f for p in self.pis] or None,
                          q_targ_list=[q.f for q in self.targs], **common)
        else:
            self.td = cls(self.main.f, pi_targ=self.pis[0].f if self.pis else None, q_targ=t, **common)

    def pscale(self, rng):
        return float(pick(rng, [0.5, 0.8, 1.25])) if self.hetero else 1

    def describe(self):
        return (self.algo, self.hetero, self.kind, self.main.bins, self.obs.kind, self.act.kind, self.main.modeltype,
                self.stateful, self.transform.kind, self.reg_kind, self.own_target, len(self.targs), len(self.pis))

    def models(self):
        out = []
        for x in [self.main, *self.targs, *self.pis, *([self.reg_pi] if self.reg_pi else [])]:
            if not any(x is y for y in out):
                out.append(x)
        return out

    def randomize(self, rng, scale=1.0):
        for x in self.models():
            x.randomize(rng, scale)

    def tie(self):
        """every value function indifferent between the actions"""
        self.tied = True
        for x in [self.main, *self.targs]:
            x.indifferent()

    def next_dist(self, tb):
        Sn, ok = tb.S_next, onp.ones(len(tb.Rn), bool)
        if self.algo == 'SimpleTD':
            return self.targs[0].d1(Sn), ok
        if self.algo == 'Sarsa':
            return self.targs[0].d1(Sn, self.act.feat(tb.A_next)), ok
        if self.algo == 'ExpectedSarsa':
            pi = softmax(self.pis[0].dist(Sn)['logits'])
            d = self.targs[0].d2(Sn)
            if self.kind == 'cat':           # the mixture over actions
                return onp.log(onp.einsum('ba,bak->bk', pi, onp.exp(log_softmax(d)))), ok
            return onp.einsum('ba,bak->bk', pi, d), ok
        if 'Clipped' in self.algo:
            vals, dists, owner = [], [], []
            for a in (self.pis if self.act.kind == 'box' else self.targs):
                if self.act.kind == 'box':
                    Af = a.dist(Sn)['mu']
                else:
                    Af, good = greedy(a.mean(a.d2(Sn)), tied=self.tied)
                    ok &= good
                for j, q in enumerate(self.targs):
                    d = q.d1(Sn, Af)
                    dists.append(d)
                    vals.append(self.transform.f_inv(q.mean(d)))
            vals, dists = onp.stack(vals, 1), onp.stack(dists, 1)
            k = vals.argmin(1)
            best = dists[onp.arange(len(k)), k]
            for i in range(len(k)):          # near ties between different distributions are ambiguous
                near = vals[i] - vals[i, k[i]] < 1e-3
                ok[i] &= bool(onp.all(onp.abs(dists[i][near] - best[i]) < 1e-6))
            return best, ok
        if self.act.kind == 'box':
            Af = self.pis[0].dist(Sn)['mu']
        else:
            Af, ok = greedy(self.targs[0].mean(self.targs[0].d2(Sn)), tied=self.tied)
        judge = self.main if self.algo == 'DoubleQLearning' else self.targs[0]
        return judge.d1(Sn, Af), ok

    def regularizer(self, tb):
        if self.reg_kind == 'entropy':
            return -self.reg.beta * self.reg_pi.entropy(tb.S)
        return self.reg.beta * self.reg_pi.kl_default(tb.S)

    def target(self, tb):
        """target probabilities (cat) or target values (quant)"""
        d, ok = self.next_dist(tb)
        Rn, In, one = tb.Rn.astype('float64'), tb.In.astype('float64'), onp.ones(len(tb.Rn))
        tr = self.transform
        if self.kind == 'cat':
            t = project(onp.exp(log_softmax(d)), self.main.atoms, In, Rn, tr)
            if self.reg is not None:
                t = project(t, self.main.atoms, one, -self.regularizer(tb), tr)
            return t, ok | (In == 0)
        t = tr.f(In[:, None] * tr.f_inv(d) + Rn[:, None])
        if self.reg is not None:
            t = tr.f(tr.f_inv(t) - self.regularizer(tb)[:, None])
        return t, ok | (In == 0)

    def prediction(self, tb, params=None):
        kw = {} if params is None else {'params': params}
        return self.main.d1(tb.S, None if self.algo == 'SimpleTD' else self.act.feat(tb.A), True, **kw)

    def target_mean(self, t):
        return t @ self.main.atoms if self.kind == 'cat' else t.mean(1)

    def loss(self, t, d, W):
        W = onp.clip(W, 0.1, 10.)
        if self.kind == 'cat':
            return (W * -(t * log_softmax(d)).sum(1)).mean()
        delta = t[:, None, :] - d[:, :, None]                  # [batch, predicted, target]
        a = onp.abs(delta)
        hub = onp.where(a <= 1, 0.5 * a ** 2, a - 0.5)
        rho = onp.abs(self.main.fractions.astype('float64')[None, :, None] - (delta < 0)) * hub
        return (W[:, None] * rho.sum(2)).mean()
