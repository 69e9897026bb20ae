"""Float64 oracle for the temporal-difference targets of deterministic value functions."""
import numpy as onp

import coax
from vmon.gen import pick
from vmon.models import Act, Identity, Obs, PiModel, QModel, Transform, VModel

ALGOS = ['SimpleTD', 'Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning',
         'ClippedDoubleQLearning', 'SoftQLearning', 'SoftClippedDoubleQLearning']
DISCRETE_ONLY = ('ExpectedSarsa', 'SoftQLearning')


def softmax(z):
    e = onp.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def greedy(Q, gap=1e-3, tied=False):
    """one-hot argmax rows, and which rows have a clear winner (tied: all functions are indifferent between actions)"""
    s = onp.sort(Q, 1)
    return onp.eye(Q.shape[1])[Q.argmax(1)], ((s[:, -1] - s[:, -2]) > gap) | tied


class Setup:
    """One configured updater with its twins and the oracle for it."""
    tied = False

    def __init__(self, rng, algo=None, loss=None, optimizer=None, reg=None, stateful=None):
        self.algo = algo = algo or pick(rng, ALGOS)
        self.obs = Obs(rng, img=True, rich=True)
        self.act = Act(rng, 'disc' if algo in DISCRETE_ONLY else None, rich=True)
        self.transform = Transform(rng) if rng.random() < 0.5 else Identity()
        tr = self.transform if self.transform.kind != 'none' else None
        self.stateful = bool(rng.random() < 0.5) if stateful is None else stateful
        # every function may have its own observation preprocessor, a target also its own transform
        self.hetero = bool(rng.random() < 0.4)
        self.main = self.value(rng, tr)
        self.targs = [self.main]
        self.pis = []
        self.own_target = True
        clipped = 'Clipped' in algo
        n_targ = int(rng.integers(2, 4)) if clipped else int(rng.random() < 0.75)
        if n_targ:
            self.targs = [self.main.like() for _ in range(n_targ)]
            if self.hetero:
                self.targs = [self.value(rng, Transform(rng) if rng.random() < 0.7 else None,
                                         None if clipped else self.main) for _ in range(n_targ)]
            self.own_target = False
        if clipped and rng.random() < 0.3:
            self.targs[0] = self.main        # the main function may itself be one of the targets
        need_pi = algo == 'ExpectedSarsa' or (algo in ('QLearning', 'DoubleQLearning')
                                              and self.act.kind == 'box')
        if need_pi:
            self.pis = [PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful)]
        if clipped and self.act.kind == 'box':
            lv = -40.0 if algo.startswith('Soft') else None      # sample == mode up to rounding
            self.pis = [PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful, logvar=lv)
                        for _ in range(int(rng.integers(1, 3)))]
        self.reg_kind = reg or pick(rng, ['none', 'none', 'entropy', 'kl'])
        self.reg_pi = self.reg = None
        if self.reg_kind != 'none':
            self.reg_pi = PiModel(rng, self.obs, self.act, pscale=self.pscale(rng), stateful=self.stateful)
            beta = float(rng.uniform(0.05, 2))
            cls = coax.regularizers.EntropyRegularizer if self.reg_kind == 'entropy' else \
                coax.regularizers.KLDivRegularizer
            self.reg = cls(self.reg_pi.f, beta=beta)
        self.loss_kind = loss or pick(rng, ['mse', 'huber', 'default'])
        lossf = {'mse': coax.value_losses.mse, 'huber': coax.value_losses.huber, 'default': None}[self.loss_kind]
        self.tau = float(rng.uniform(0.2, 3))
        common = dict(loss_function=lossf, policy_regularizer=self.reg, optimizer=optimizer)
        cls = getattr(coax.td_learning, algo)
        t = None if self.own_target else self.targs[0].f
        if algo == 'SimpleTD':
            self.td = cls(self.main.f, v_targ=t, **common)
        elif algo == 'Sarsa':
            self.td = cls(self.main.f, q_targ=t, **common)
        elif algo == 'ExpectedSarsa':
            self.td = cls(self.main.f, self.pis[0].f, q_targ=t, **common)
        elif algo == 'SoftQLearning':
            self.td = cls(self.main.f, q_targ=t, temperature=self.tau, **common)
        elif clipped:
            self.td = cls(self.main.f, pi_targ_list=[p.f for p in self.pis] or None,
                          q_targ_list=[q.f for q in self.targs], **common)
        else:
            self.td = cls(self.main.f, pi_targ=self.pis[0].f if self.pis else None, q_targ=t, **common)

    def pscale(self, rng):
        return float(pick(rng, [0.5, 0.8, 1.25])) if self.hetero else 1

    def value(self, rng, tr, like=None):
        kw = dict(stateful=self.stateful, transform=tr, pscale=self.pscale(rng))
        if self.algo == 'SimpleTD':
            return VModel(rng, self.obs, **kw)
        return QModel(rng, self.obs, self.act, modeltype=like and like.modeltype, **kw)

    def describe(self):
        return (self.algo, self.hetero, self.obs.kind, self.act.kind, getattr(self.main, 'modeltype', 0), self.stateful,
                self.transform.kind, self.reg_kind, self.loss_kind, self.own_target, len(self.targs), len(self.pis))

    def models(self):
        out = []
        for x in [self.main, *self.targs, *self.pis, *([self.reg_pi] if self.reg_pi else [])]:
            if not any(x is y for y in out):
                out.append(x)
        return out

    def randomize(self, rng, scale=0.8):
        for x in self.models():
            x.randomize(rng, scale)

    def tie(self):
        """every value function indifferent between the actions"""
        self.tied = True
        for x in [self.main, *self.targs]:
            x.indifferent()

    def next_value(self, tb):
        """(bootstrap value in the original space, rows that are well-conditioned)"""
        Sn, ok = tb.S_next, onp.ones(len(tb.Rn), bool)
        t0 = self.targs[0]

        def fi(y, model=t0):
            return y if model.transform is None else model.transform.f_inv(y)

        if self.algo == 'SimpleTD':
            return fi(self.targs[0].raw(Sn)), ok
        if self.algo == 'Sarsa':
            return fi(self.targs[0].raw1(Sn, self.act.feat(tb.A_next))), ok
        if self.algo == 'ExpectedSarsa':
            p = softmax(self.pis[0].dist(Sn)['logits'])
            return (p * fi(self.targs[0].raw2(Sn))).sum(1), ok
        if self.algo == 'SoftQLearning':
            q = fi(self.targs[0].raw2(Sn)) / self.tau
            mx = q.max(1, keepdims=True)
            return self.tau * (mx[:, 0] + onp.log(onp.exp(q - mx).sum(1))), ok
        if 'Clipped' in self.algo:
            vals = []
            for a in (self.pis if self.act.kind == 'box' else self.targs):
                if self.act.kind == 'box':
                    Af = a.dist(Sn)['mu']
                else:
                    Af, good = greedy(a.raw2(Sn), tied=self.tied)
                    ok &= good
                vals += [fi(q.raw1(Sn, Af), q) for q in self.targs]
            return onp.min(vals, 0), ok
        if self.act.kind == 'box':
            Af = self.pis[0].dist(Sn)['mu']
        else:
            Af, ok = greedy(self.targs[0].raw2(Sn), tied=self.tied)
        judge = self.main if self.algo == 'DoubleQLearning' else self.targs[0]
        return fi(judge.raw1(Sn, Af), judge), ok

    def regularizer(self, tb):
        if self.reg_kind == 'none':
            return onp.zeros(len(tb.Rn))
        if self.reg_kind == 'entropy':
            return -self.reg.beta * self.reg_pi.entropy(tb.S)
        return self.reg.beta * self.reg_pi.kl_default(tb.S)

    def target(self, tb):
        nxt, ok = self.next_value(tb)
        ok = ok | (tb.In == 0)
        G = self.transform.f(tb.Rn.astype('float64') + tb.In.astype('float64') * nxt)
        return G - self.regularizer(tb), ok

    def prediction(self, tb, params=None):
        kw = {} if params is None else {'params': params}
        if self.algo == 'SimpleTD':
            return self.main.raw(tb.S, True, **kw)
        return self.main.raw1(tb.S, self.act.feat(tb.A), True, **kw)

    def loss(self, G, Y, W=None):
        e = onp.abs(G - Y)
        if self.loss_kind == 'mse':
            l = 0.5 * e ** 2
        else:
            l = onp.where(e <= 1, 0.5 * e ** 2, e - 0.5)
        return (l if W is None else onp.clip(W, 0.1, 10.) * l).mean()

    def error(self, G, Y):
        return G - Y if self.loss_kind == 'mse' else onp.clip(G - Y, -1, 1)
