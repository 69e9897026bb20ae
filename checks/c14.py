"""C14: epsilon-greedy, Boltzmann and uniform policies follow their documented distributions."""
import types

import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.models import Act, DistModel, Obs, QModel, Transform, log_softmax

KEY = jax.random.PRNGKey


def raw_q(model, S):
    """(batch, n) values the policy acts on, in the transformed space"""
    return model.mean(model.d2(S)) if isinstance(model, DistModel) else model.raw2(S)


def make(rng, obs, act):
    tr = Transform(rng) if rng.random() < 0.4 else None
    if rng.random() < 0.5:
        return QModel(rng, obs, act, stateful=rng.random() < 0.5, transform=tr)
    return DistModel(rng, obs, act, stateful=rng.random() < 0.5, transform=tr)


def eps_probs(q, eps):
    best = (q == q.max()).astype('float64')
    return best / best.sum() * (1 - eps) + eps / len(q)


def drive(m, pi, want_probs, S, i, obs, n, N=800, tol=2e-3):
    rng = m.rng
    s = jax.tree_util.tree_map(lambda v: v[i], S)
    s = int(s) if obs.kind == 'disc' else s
    lp = log_softmax(onp.asarray(pi.dist_params(s)['logits'], 'float64'))
    m.true(onp.all(onp.abs(onp.exp(lp) - want_probs) <= tol), 'action-probabilities', onp.exp(lp), want_probs)
    srt = onp.sort(want_probs)
    if srt[-1] - srt[-2] > 5e-3 + 2 * tol:
        m.eq(int(pi.mode(s)), int(want_probs.argmax()), 'mode-is-greedy', want_probs)
    for _ in range(6):
        a, logp = pi(s, return_logp=True)
        m.true(0 <= a < n, 'action-in-the-space', a)
        m.close(logp, lp[a], 'log-propensity-of-the-action-taken', rtol=1e-3, atol=1e-3)
        m.ev('actions')
    P = jax.tree_util.tree_map(lambda v: jnp.repeat(v, N, 0), pi.observation_preprocessor(KEY(0), s))
    X, _ = pi.sample_func(pi.params, pi.function_state, KEY(int(rng.integers(1e9))), P)
    c = onp.bincount(onp.asarray(X).argmax(1), minlength=n)
    p = want_probs
    m.true(onp.all(onp.abs(c - N * p) <= 6.5 * onp.sqrt(N * p * (1 - p) + 1) + (3e-3 + tol) * N), 'frequencies', c / N, p)
    m.ev('sampled', N)


@scenario(quick=50, thorough=1400, floor={'actions': 800, 'sampled': 60000})
def epsilon_greedy(m):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, 'disc', rich=True)
    model = make(rng, obs, act)
    eps = float(pick(rng, [0.0, 1.0, 0.1, 0.5, 1e-4, 0.999, rng.random()]))
    pi = coax.EpsilonGreedy(model.f, epsilon=eps)
    for round_ in range(3):
        if round_:
            model.randomize(rng)
            pi.epsilon = eps = float(pick(rng, [0.0, 1.0, 0.3, 1e-5, rng.random()]))
        S = obs.sample(rng, 2)
        Q = raw_q(model, S)
        for i in range(2):
            s = onp.sort(Q[i])
            if s[-1] - s[-2] < 1e-3:
                continue
            drive(m, pi, eps_probs(Q[i], eps), S, i, obs, act.n, tol=2e-6)
        m.nontrivial(type(model).__name__, model.modeltype, obs.kind, round(eps, 2), round_)
    m.sample(epsilon=eps, q=Q)


@scenario(quick=12, thorough=250, floor={'ties': 40})
def greedy_ties(m):
    """equally good actions share the greedy probability"""
    rng = m.rng
    n = int(rng.integers(2, 6))
    env = types.SimpleNamespace(observation_space=gym.spaces.Discrete(3), action_space=gym.spaces.Discrete(n))
    import haiku as hk

    def func(S, is_training):
        w = hk.get_parameter('w', (3, n), init=hk.initializers.Constant(0))
        return S @ w

    q = coax.Q(func, env)
    pi = coax.EpsilonGreedy(q)
    for _ in range(4):
        w = rng.integers(0, 3, (3, n)).astype('float32') * float(pick(rng, [1, 1e-3, 1e5, -1]))
        q.params = jax.tree_util.tree_map(lambda x: jnp.asarray(w), q.params)
        pi.epsilon = eps = float(pick(rng, [0., 0.2, 0.7]))
        for s in range(3):
            p = onp.exp(log_softmax(onp.asarray(pi.dist_params(s)['logits'], 'float64')))
            m.close(p, eps_probs(w[s], eps), 'ties-share-the-greedy-probability', rtol=1e-3, atol=1e-3)
            m.ev('ties')
        m.nontrivial(n, eps)
    m.sample(w=w, eps=eps)


@scenario(quick=50, thorough=1400, floor={'actions': 800, 'sampled': 60000})
def boltzmann(m):
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, 'disc', rich=True)
    model = make(rng, obs, act)
    tau = float(pick(rng, [1e-3, 0.02, 0.1, 1.0, 5.0, 300., rng.uniform(0.05, 3)]))
    pi = coax.BoltzmannPolicy(model.f, temperature=tau)
    for round_ in range(3):
        if round_:
            model.randomize(rng)
            pi.temperature = tau = float(pick(rng, [rng.uniform(0.05, 3), 10 ** rng.uniform(-3, 2)]))
        S = obs.sample(rng, 2)
        Q = raw_q(model, S)
        for i in range(2):
            # float32 errors of q are blown up by 1/tau
            drive(m, pi, onp.exp(log_softmax(Q[i] / tau)), S, i, obs, act.n,
                  tol=2e-5 + 2e-5 * (1 + onp.abs(Q[i]).max()) / tau)
        m.nontrivial(type(model).__name__, model.modeltype, obs.kind, round(tau, 2), round_)
    m.sample(temperature=tau, q=Q)


@scenario(quick=20, thorough=400, floor={'setters': 40, 'function-state-setters': 10})
def shared_parameters(m):
    """the policy has no parameters of its own beyond epsilon/temperature: it is a view of q"""
    rng = m.rng
    obs, act = Obs(rng, img=True, rich=True), Act(rng, 'disc', rich=True)
    model = QModel(rng, obs, act, stateful=m.index % 2 == 0)
    for cls, name in ((coax.EpsilonGreedy, 'epsilon'), (coax.BoltzmannPolicy, 'temperature')):
        pi = cls(model.f)
        other = model.like()
        other.randomize(rng)
        pi2 = cls(other.f)
        setattr(pi2, name, 0.37)
        pi.params = pi2.params
        m.close(getattr(pi, name), 0.37, 'setting-params-sets-the-hyperparameter')
        m.tree_eq(model.f.params, other.f.params, 'setting-params-sets-q')
        m.raises(TypeError, lambda: setattr(pi, 'params', {'x': 1}), 'alien-params-refused')
        m.tree_eq(model.f.params, other.f.params, 'refused-params-have-no-effect')
        if jax.tree_util.tree_leaves(model.f.function_state):
            bumped = jax.tree_util.tree_map(lambda x: x + 1, model.f.function_state)
            pi.function_state = bumped
            m.tree_eq(model.f.function_state, bumped, 'setting-the-function-state-sets-q')
            m.ev('function-state-setters')
        m.tree_eq(pi.function_state, model.f.function_state, 'function-state-is-that-of-q')
        m.ev('setters')
    m.raises(TypeError, lambda: coax.EpsilonGreedy(QModel(rng, obs, Act(rng, 'box')).f), 'continuous-refused')
    m.nontrivial(obs.kind, act.n, model.modeltype)
    m.sample(obs=obs.kind)


@scenario(quick=30, thorough=600, floor={'random-actions': 4000})
def random_policy(m):
    rng = m.rng
    kind = pick(rng, ['disc', 'box', 'multi', 'dict'])
    n = int(rng.integers(2, 7))
    low, high = rng.uniform(-3, 0, 2).astype('float32'), rng.uniform(0.5, 3, 2).astype('float32')
    space = {'disc': gym.spaces.Discrete(n), 'box': gym.spaces.Box(low, high, dtype='float32'),
             'multi': gym.spaces.MultiDiscrete([2, n]),
             'dict': gym.spaces.Dict({'a': gym.spaces.Discrete(n), 'b': gym.spaces.Box(low, high)})}[kind]
    seed = int(rng.integers(1e6))
    pi = coax.RandomPolicy(types.SimpleNamespace(action_space=space), random_seed=seed)
    N = 300
    out = [pi(None) for _ in range(N)]
    m.true(all(space.contains(a) for a in out), 'action-in-the-space')
    m.true(space.contains(pi.mode(None)), 'action-in-the-space')
    m.ev('random-actions', N)
    if kind == 'disc':
        c = onp.bincount(out, minlength=n)
        m.true(onp.all(onp.abs(c - N / n) < 6.5 * onp.sqrt(N / n) + 1), 'uniform', c)
        a, logp = pi(None, return_logp=True)
        m.close(logp, -onp.log(n), 'log-propensity', rtol=1e-5)
        p = onp.exp(log_softmax(onp.asarray(pi.dist_params(None)['logits'])))
        m.close(p, onp.full(n, 1 / n), 'dist-params-are-uniform')
    elif kind == 'box':
        u = (onp.array(out) - low) / (high - low)
        m.true(onp.all(onp.abs(u.mean(0) - 0.5) < 6.5 * onp.sqrt(1 / 12 / N)), 'uniform', u.mean(0))
        a, logp = pi(None, return_logp=True)
        m.close(logp, -onp.log((high - low).astype('float64')).sum(), 'log-propensity', rtol=1e-4, atol=1e-5)
        p = pi.dist_params(None)           # nearly flat: the density varies little over the box
        sd = onp.exp(onp.asarray(p['logvar'], 'float64') / 2)
        m.true(onp.asarray(p['mu']).shape == low.shape and onp.all(sd > 100), 'dist-params-are-nearly-uniform', p)
    else:
        m.raises(NotImplementedError, lambda: pi(None, return_logp=True), 'unsupported-log-propensity-refused')
    again = coax.RandomPolicy(types.SimpleNamespace(action_space=space), random_seed=seed)
    m.tree_eq([again(None) for _ in range(5)], out[:5], 'equal-seeds-give-equal-actions')
    m.nontrivial(kind, n)
    m.sample(space=str(space))
