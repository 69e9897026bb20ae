"""C18: regularizers charge the documented entropy / divergence term, with the current coefficients."""
import types

import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from coax.regularizers import EntropyRegularizer, KLDivRegularizer, NStepEntropyRegularizer
from vmon import scenario
from vmon.gen import pick
from vmon.models import Act, DistModel, Obs, PiModel, SAModel, batch, log_softmax, obs_outputs
from vmon.pg import no_training_shift


def key(rng):
    return jax.random.PRNGKey(int(rng.integers(2 ** 31)))


def cat_kl(z, z0):
    a, b = log_softmax(z), log_softmax(z0)
    return (onp.exp(a) * (a - b)).sum(-1)


def norm_kl(mu, lv, mu0, lv0):
    lv, lv0 = onp.clip(lv, -20, 20), onp.clip(lv0, -20, 20)
    t = 0.5 * (onp.exp(lv - lv0) + (mu - mu0) ** 2 * onp.exp(-lv0) - 1 - (lv - lv0))
    return t.reshape(len(mu), -1).sum(1)


def cat_entropy(z):
    a = log_softmax(z)
    return -(onp.exp(a) * a).sum(-1)


def norm_entropy(lv):
    return 0.5 * (onp.clip(lv, -20, 20) + onp.log(2 * onp.pi) + 1).reshape(len(lv), -1).sum(1)


class Subject:
    """A stochastic function with its twin: ``leaves(tb)`` gives [(kind, params)] per component."""
    def __init__(self, rng, kind=None):
        self.kind = kind or pick(rng, ['policy', 'policy', 'sv', 'sq', 'model', 'reward'])
        self.obs, self.act = Obs(rng, rich=self.kind != 'model'), Act(rng, rich=True)
        self.stateful = bool(rng.random() < 0.5)
        if self.kind == 'policy':
            self.m = PiModel(rng, self.obs, self.act, stateful=self.stateful)
        elif self.kind == 'sv':
            self.m = DistModel(rng, self.obs, stateful=self.stateful, kind='cat')
        elif self.kind == 'sq':
            self.m = DistModel(rng, self.obs, self.act, stateful=self.stateful, kind='cat')
        elif self.kind == 'model':
            shapes, build = obs_outputs(self.obs, True)
            self.m = SAModel(rng, coax.StochasticTransitionModel, self.obs, self.act, shapes, build,
                             stateful=self.stateful)
        else:
            bins = int(rng.integers(2, 6))
            self.m = SAModel(rng, coax.StochasticRewardFunction, self.obs, self.act, {'logits': (bins,)},
                             lambda o: {'logits': o['logits']}, stateful=self.stateful,
                             value_range=(-3., 2.), num_bins=bins)
        self.f = self.m.f

    def describe(self):
        return (self.kind, self.obs.kind, self.act.kind, getattr(self.m, 'modeltype', 0), self.stateful)

    def dist(self, tb):
        """{leaf name: dist params} in evaluation mode"""
        if self.kind == 'policy':
            return {'': self.m.dist(tb.S)}
        if self.kind == 'sv':
            return {'': {'logits': self.m.d1(tb.S)}}
        Af = self.act.feat(tb.A)
        if self.kind == 'sq':
            return {'': {'logits': self.m.d1(tb.S, Af)}}
        o = self.m.at(tb.S, Af)
        if self.kind == 'model' and self.obs.kind == 'dict':
            return {'a': {'mu': o['mu'], 'logvar': o['logvar']}, 'b': {'logits': o['logits']}}
        return {'': o}

    def priors(self, rng):
        """random priors in the structure of the default ones"""
        return jax.tree_util.tree_map(lambda p: jnp.asarray(rng.normal(0, 0.7, onp.shape(p)), 'float32'),
                                      self.f.proba_dist.default_priors)


def entropy(d):
    return sum(cat_entropy(x['logits']) if 'logits' in x else norm_entropy(x['logvar']) for x in d.values())


def kl(d, d0):
    out = 0.
    for k, x in d.items():
        y = d0[k]
        if 'logits' in x:
            out = out + cat_kl(x['logits'], onp.asarray(y['logits'], 'float64'))
        else:
            b = len(x['mu'])
            out = out + norm_kl(x['mu'].reshape(b, -1), x['logvar'].reshape(b, -1),
                                onp.asarray(y['mu'], 'float64').reshape(1, -1),
                                onp.asarray(y['logvar'], 'float64').reshape(1, -1))
    return out


def default_prior(d):
    return {k: {'logits': onp.zeros((1, x['logits'].shape[-1]))} if 'logits' in x else
            {'mu': onp.zeros((1,) + x['mu'].shape[1:]), 'logvar': onp.zeros((1,) + x['mu'].shape[1:])}
            for k, x in d.items()}


def tol(x):
    return dict(rtol=1e-3, atol=1e-4 * (1 + float(onp.abs(x).max())))


@scenario(quick=60, thorough=1800, floor={'entropy-terms': 20, 'kl-terms': 40, 'custom-priors': 15})
def one_step(m):
    rng = m.rng
    su = Subject(rng)
    m.log(su.describe())
    which = pick(rng, ['entropy', 'kl', 'kl'])
    custom = None
    if which == 'entropy':
        reg = EntropyRegularizer(su.f, beta=float(rng.uniform(0.01, 2)))
    else:
        custom = su.priors(rng) if rng.random() < 0.5 else None
        reg = KLDivRegularizer(su.f, beta=float(rng.uniform(0.01, 2)), priors=custom)
    for _ in range(3):
        su.m.randomize(rng, pick(rng, [0.8, 0.8, 4.0]))
        size = int(pick(rng, [1, 3, 6, 40]))
        tb = batch(rng, su.obs, su.act, size)
        if rng.random() < 0.5:
            reg.beta = float(pick(rng, [0., 0.5, 3., -0.4]))
        if which == 'kl' and rng.random() < 0.4:
            reg.priors = custom = su.priors(rng)
        got, metrics = reg.batch_eval(su.f.params, reg.hyperparams, su.f.function_state, key(rng), tb)
        d = su.dist(tb)
        if which == 'entropy':
            H = entropy(d)
            m.close(got, -reg.beta * H, 'entropy-term', su.describe(), **tol(H))
            m.close(metrics['EntropyRegularizer/entropy'], H.mean(), 'entropy-metric', **tol(H))
            m.close(metrics['EntropyRegularizer/beta'], reg.beta, 'beta-metric')
            m.ev('entropy-terms')
        else:
            if custom is None:
                d0 = default_prior(d)
            else:
                d0 = custom if '' not in d else {'': custom}
                m.ev('custom-priors')
            K = kl(d, d0)
            m.close(got, reg.beta * K, 'kl-term', su.describe(), 'custom' if custom is not None else 'default',
                    **tol(K))
            m.true(reg.beta < 0 or bool(onp.all(onp.asarray(got) >= -1e-4 * (1 + onp.abs(K).max()) * (1 + reg.beta))),
                   'kl-term-is-not-negative')
            m.close(metrics['KLDivRegularizer/kl_div'], K.mean(), 'kl-metric', **tol(K))
            m.close(metrics['KLDivRegularizer/beta'], reg.beta, 'beta-metric')
            m.ev('kl-terms')
        m.nontrivial(su.describe(), which, custom is not None, size)
    m.sample(config=su.describe(), which=which)


def windows(rng, obs, act, n, size):
    """a batch assembled by the real n-step tracer with extra info, plus the raw windows"""
    out, wins = [], []
    while len(out) < size:
        tracer = coax.reward_tracing.NStep(n=n, gamma=0.9, record_extra_info=True)
        L = int(rng.integers(1, n + 4))
        ep = [obs.sample(rng) for _ in range(L)]
        for t, s in enumerate(ep):
            tracer.add(s, act.sample(rng), float(rng.normal()), t == L - 1)
        for t, tr in enumerate(list(_drain(tracer))):
            out.append(tr)
            wins.append(ep[t:t + n + 1])          # states t .. t+n that exist
    return out[:size], wins[:size]


def _drain(tracer):
    while tracer:
        yield tracer.pop()


@scenario(quick=40, thorough=1200, floor={'nstep-terms': 40, 'steps-past-the-end': 20})
def nstep_entropy(m):
    rng = m.rng
    obs, act = Obs(rng), Act(rng)
    pi = PiModel(rng, obs, act, stateful=bool(rng.random() < 0.5))
    n = int(rng.integers(1, 5))
    size = int(pick(rng, [1, 3, 5]))
    idx = [int(i) for i in rng.permutation(n + 1)[:int(rng.integers(1, n + 2))]]
    idx = pick(rng, [list, tuple, jnp.array])(idx)
    gamma, beta = float(rng.uniform(0.3, 1)), float(rng.uniform(0.05, 2))
    reg = NStepEntropyRegularizer(pi.f, n=idx, beta=beta, gamma=gamma)
    idx = [int(i) for i in idx]
    m.log(obs.kind, act.kind, n, idx, size)
    for _ in range(2):
        pi.randomize(rng)
        no_training_shift(pi)
        singles, wins = windows(rng, obs, act, n, size)
        tb = jax.tree_util.tree_map(lambda *x: onp.concatenate(x, 0), *singles)
        if rng.random() < 0.5:
            reg.beta = beta = float(rng.uniform(0, 2))
        got, metrics = reg.batch_eval(pi.f.params, reg.hyperparams, pi.f.function_state, key(rng), tb)
        want, ratio = onp.zeros(size), onp.zeros(size)
        for b, w in enumerate(wins):
            terms = []
            for i in idx:
                if i < len(w):
                    S = jax.tree_util.tree_map(lambda x: onp.asarray(x)[None], w[i])
                    terms.append(gamma ** i * float(pi.entropy(S)[0]))
                else:
                    m.ev('steps-past-the-end')
            want[b] = sum(terms)
            ratio[b] = want[b] / max(1, len(terms))
        m.close(got, -beta * want, 'n-step-entropy-term', f'n={n} idx={idx} lengths={[len(w) for w in wins]}',
                **tol(want))
        m.close(metrics['EntropyRegularizer/entropy'], ratio.mean(), 'n-step-entropy-metric', **tol(want))
        m.ev('nstep-terms')
        m.nontrivial(obs.kind, act.kind, n, tuple(idx), size)
    # as part of a policy objective
    po = coax.policy_objectives.VanillaPG(pi.f, regularizer=reg)
    adv = rng.normal(size=size).astype('float32')
    W = onp.exp(rng.normal(0, 1.5, size)).astype('float32')
    tb.W = W
    met = po.grads_and_metrics(tb, adv)[2]
    extra = float(met['VanillaPG/loss']) - float(met['VanillaPG/loss_bare'])
    scale = abs(float(met['VanillaPG/loss_bare']))
    m.close(extra, (onp.clip(W, 0.1, 10) * -beta * want).mean(), 'weighted-term-enters-the-loss', rtol=2e-3,
            atol=1e-3 + 1e-4 * scale)
    m.sample(n=n, idx=idx, got=got, want=-beta * want)


@scenario(quick=10, thorough=100, floor={'domain': 10})
def domain(m):
    rng = m.rng
    obs, act = Obs(rng), Act(rng)
    pi = PiModel(rng, obs, act)
    v = coax.V(lambda S, is_training: jnp.zeros(jax.tree_util.tree_leaves(S)[0].shape[0]),
               types.SimpleNamespace(observation_space=gym.spaces.Box(-1, 1, (2,))))
    for cls in (EntropyRegularizer, KLDivRegularizer):
        m.raises(TypeError, lambda: cls(v), 'deterministic-function-refused')
    m.raises(ValueError, lambda: NStepEntropyRegularizer(pi.f, n=[]), 'empty-n-refused')
    m.raises(TypeError, lambda: NStepEntropyRegularizer(pi.f, n=3), 'scalar-n-refused')
    reg = NStepEntropyRegularizer(pi.f, n=[0])
    tb = batch(rng, obs, act, 2)
    m.raises(TypeError, lambda: reg.batch_eval(pi.f.params, reg.hyperparams, pi.f.function_state, key(rng), tb),
             'missing-extra-info-refused')
    m.ev('domain')
    m.nontrivial(obs.kind, act.kind)
