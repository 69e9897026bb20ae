"""C29: agents assembled from the parts learn the value functions of small environments.

The environments are finite and deterministic, so dynamic programming in numpy gives the exact answer; the function
approximators are tables, so learning has to reach it."""
import types

import gymnasium as gym
import haiku as hk
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from coax.reward_tracing import TransitionBatch
from vmon import scenario
from vmon.gen import pick
from vmon.models import Identity, Transform, log_softmax


class MDP(gym.Env):
    """nxt[s, a], rew[s, a], end[s, a]: a deterministic environment over Discrete spaces"""
    def __init__(self, rng, ns=None, na=None, ends=0.25):
        self.ns, self.na = ns or int(rng.integers(2, 6)), na or int(rng.integers(2, 4))
        self.nxt = rng.integers(self.ns, size=(self.ns, self.na))
        self.rew = onp.round(rng.normal(0, 1, (self.ns, self.na)), 2)
        self.end = rng.random((self.ns, self.na)) < ends
        self.end[int(rng.integers(self.ns)), int(rng.integers(self.na))] = True
        self.observation_space, self.action_space = gym.spaces.Discrete(self.ns), gym.spaces.Discrete(self.na)
        self.g = onp.random.default_rng(int(rng.integers(2 ** 31)))

    def reset(self, seed=None, options=None):
        self.s = int(self.g.integers(self.ns))
        return self.s, {}

    def step(self, a):
        s, a = self.s, int(a)
        self.s = int(self.nxt[s, a])
        return self.s, float(self.rew[s, a]), bool(self.end[s, a]), False, {}

    def backup(self, gamma, value):
        """r + gamma * value(s') for every (s, a)"""
        return self.rew + gamma * onp.where(self.end, 0., value[self.nxt])


def fixed_point(mdp, gamma, state_value):
    """iterate q <- backup(state_value(q)) to convergence"""
    q = onp.zeros((mdp.ns, mdp.na))
    for _ in range(3000):
        new = mdp.backup(gamma, state_value(q))
        if onp.abs(new - q).max() < 1e-10:
            break
        q = new
    return q


def make_q(rng, mdp, transform=None, modeltype=None, scale=0.3):
    mt = modeltype or int(rng.integers(1, 3))
    init = hk.initializers.RandomNormal(scale)

    def type1(S, A, is_training):
        return jnp.einsum('bs,ba,sa->b', S, A, hk.get_parameter('table', (mdp.ns, mdp.na), init=init))

    def type2(S, is_training):
        return S @ hk.get_parameter('table', (mdp.ns, mdp.na), init=init)

    return coax.Q(type1 if mt == 1 else type2, mdp, value_transform=transform,
                  random_seed=int(rng.integers(2 ** 31)))


def make_pi(rng, mdp, logits=None):
    def func(S, is_training):
        z = hk.get_parameter('z', (mdp.ns, mdp.na), init=hk.initializers.Constant(0.))
        return {'logits': S @ z}
    pi = coax.Policy(func, mdp, random_seed=int(rng.integers(2 ** 31)))
    if logits is not None:
        pi.params = {k: {'z': jnp.asarray(logits, 'float32')} for k in pi.params}
    return pi


def table(q, mdp):
    return onp.array([[float(q(s, a)) for a in range(mdp.na)] for s in range(mdp.ns)])


def sweep(mdp, gamma, a_next=None):
    """every (s, a) once, as one batch"""
    S, A = onp.divmod(onp.arange(mdp.ns * mdp.na), mdp.na)
    n = len(S)
    Sn = mdp.nxt[S, A]
    return TransitionBatch(
        S=S, A=A, logP=onp.zeros(n), Rn=mdp.rew[S, A].astype('float32'),
        In=onp.where(mdp.end[S, A], 0., gamma).astype('float32'), S_next=Sn,
        A_next=None if a_next is None else a_next[Sn], logP_next=None if a_next is None else onp.zeros(n),
        W=onp.ones(n, 'float32'), idx=onp.arange(n))


def softmax(z):
    return onp.exp(log_softmax(z))


@scenario(quick=42, thorough=1000, floor={'controlled': 42, 'table-updates': 5000})
def dynamic_programming(m):
    """updating all state-action pairs at once with the right step size is value iteration"""
    rng = m.rng
    algo = ['QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning', 'SoftQLearning', 'ExpectedSarsa', 'Sarsa',
            'SoftClippedDoubleQLearning'][m.index % 7]
    mdp, gamma = MDP(rng), float(pick(rng, [0.5, 0.8, 0.9]))
    tr = Transform(rng) if rng.random() < 0.5 else Identity()
    q = make_q(rng, mdp, tr.jax)
    targ = q.copy()
    tau_t = float(pick(rng, [1.0, 0.5]))
    n = mdp.ns * mdp.na
    kw = dict(optimizer=optax.sgd(n), loss_function=coax.value_losses.mse)
    a_next, temp = None, float(rng.uniform(0.2, 1.5))
    if algo == 'Sarsa':
        a_next = rng.integers(mdp.na, size=mdp.ns)
        td = coax.td_learning.Sarsa(q, q_targ=targ, **kw)
        value = lambda x: x[onp.arange(mdp.ns), a_next]
    elif algo == 'ExpectedSarsa':
        z = rng.normal(0, 1.5, (mdp.ns, mdp.na))
        td = coax.td_learning.ExpectedSarsa(q, make_pi(rng, mdp, z), q_targ=targ, **kw)
        value = lambda x: (softmax(z.astype('float32')) * x).sum(1)
    elif algo == 'SoftQLearning':
        td = coax.td_learning.SoftQLearning(q, q_targ=targ, temperature=temp, **kw)
        value = lambda x: temp * (onp.log(onp.exp((x - x.max(1, keepdims=True)) / temp).sum(1)) + x.max(1) / temp)
    elif 'Clipped' in algo:
        td = getattr(coax.td_learning, algo)(q, q_targ_list=[targ, targ.copy()], **kw)
        td.q_targ_list[1].params = targ.params
        value = lambda x: x.max(1)
    else:
        td = getattr(coax.td_learning, algo)(q, q_targ=targ, **kw)
        value = lambda x: x.max(1)
    want = fixed_point(mdp, gamma, value)
    tb = sweep(mdp, gamma, a_next)
    m.log(algo, mdp.ns, mdp.na, gamma, tr.kind, tau_t)
    K = int(onp.ceil(onp.log(1e-4) / onp.log(1 - tau_t * (1 - gamma)))) + 10
    for _ in range(K):
        td.update(tb)
        targ.soft_update(q, tau=tau_t)
        if 'Clipped' in algo:
            td.q_targ_list[1].soft_update(q, tau=tau_t)
        m.ev('table-updates')
    got = table(q, mdp)
    m.true(onp.all(onp.abs(got - want) <= 0.02 * (1 + onp.abs(want))), 'reaches-the-fixed-point', algo, got, want)
    err = onp.asarray(td.td_error(tb))
    m.true(onp.all(onp.abs(err) < 0.05), 'no-error-left', err)
    m.ev('controlled')
    m.nontrivial(algo, mdp.ns, mdp.na, gamma, tr.kind)
    m.sample(algo=algo, learned=got[0], exact=want[0])


@scenario(quick=24, thorough=500, floor={'evaluated': 24, 'episodes': 600})
def policy_evaluation(m):
    """V and q of a deterministic policy, from traced experience, for any n and for Monte-Carlo returns"""
    rng = m.rng
    mdp, gamma = MDP(rng, ns=int(rng.integers(3, 7)), ends=0.), float(pick(rng, [0.5, 0.9, 1.0]))
    pol = rng.integers(mdp.na, size=mdp.ns)
    order = rng.permutation(mdp.ns)                  # the policy walks through the states and ends
    for i, s in enumerate(order):
        mdp.end[s, pol[s]] = i == mdp.ns - 1
        if i < mdp.ns - 1:
            mdp.nxt[s, pol[s]] = order[min(mdp.ns - 1, i + 1)]
    v_true = onp.zeros(mdp.ns)
    for s in order[::-1]:
        v_true[s] = mdp.rew[s, pol[s]] + (0 if mdp.end[s, pol[s]] else gamma * v_true[mdp.nxt[s, pol[s]]])
    how = pick(rng, ['n', 'n', 'mc'])
    n = int(rng.integers(1, 6))
    tracer = coax.reward_tracing.NStep(n=n, gamma=gamma) if how == 'n' else coax.reward_tracing.MonteCarlo(gamma=gamma)
    use_v = bool(rng.random() < 0.5)
    tr = Transform(rng) if rng.random() < 0.4 else Identity()
    kw = dict(optimizer=optax.sgd(1.0), loss_function=coax.value_losses.mse)
    if use_v:
        f = coax.V(lambda S, is_training: S @ hk.get_parameter('t', (mdp.ns,), init=hk.initializers.RandomNormal(1.)),
                   mdp, value_transform=tr.jax, random_seed=int(rng.integers(2 ** 31)))
        td = coax.td_learning.SimpleTD(f, **kw)
    else:
        f = make_q(rng, mdp, tr.jax)
        td = coax.td_learning.Sarsa(f, **kw)
    monitor = coax.wrappers.TrainMonitor(mdp) if rng.random() < 0.5 else mdp
    updates = 0
    for ep in range(40):
        s, _ = monitor.reset()
        m.ev('episodes')
        for _ in range(mdp.ns + 1):
            a = int(pol[s])
            s2, r, done, trunc, _ = monitor.step(a)
            tracer.add(s, a, r, done or trunc)
            while tracer:
                td.update(tracer.pop())
                updates += 1
            if done:
                break
            s = s2
        m.true(done, 'episode-ends')
    got = onp.array([float(f(s) if use_v else f(s, int(pol[s]))) for s in range(mdp.ns)])
    m.true(onp.all(onp.abs(got - v_true) <= 0.02 * (1 + onp.abs(v_true))), 'learned-the-value-of-the-policy',
           f'{how} n={n} gamma={gamma} v={use_v} {tr.kind}', got, v_true)
    m.ev('evaluated')
    m.nontrivial(mdp.ns, gamma, how, n, use_v, tr.kind)
    m.sample(learned=got, exact=v_true, how=how, n=n, updates=updates)


@scenario(quick=16, thorough=350, floor={'agents': 16, 'agent-steps': 8000})
def q_learning_agent(m):
    """the whole loop: behaviour policy, tracer, replay buffer, updater, target network"""
    rng = m.rng
    mdp, gamma = MDP(rng, ns=int(rng.integers(2, 4)), na=2), float(pick(rng, [0.5, 0.8]))
    q = make_q(rng, mdp)
    targ = q.copy()
    eps = float(rng.uniform(0.3, 0.9))
    soft = rng.random() < 0.3
    pi = coax.BoltzmannPolicy(q, temperature=float(rng.uniform(0.7, 2))) if soft else coax.EpsilonGreedy(q, epsilon=eps)
    algo = pick(rng, ['QLearning', 'DoubleQLearning'])
    td = getattr(coax.td_learning, algo)(q, q_targ=targ, optimizer=optax.sgd(1.0),
                                         loss_function=coax.value_losses.mse)
    tracer = coax.reward_tracing.NStep(n=1, gamma=gamma)
    prio = bool(rng.random() < 0.5)
    seed = int(rng.integers(2 ** 31))
    buf = coax.experience_replay.PrioritizedReplayBuffer(200, alpha=0.6, beta=0.4, random_seed=seed) if prio else \
        coax.experience_replay.SimpleReplayBuffer(200, random_seed=seed)
    want = fixed_point(mdp, gamma, lambda x: x.max(1))
    env = coax.wrappers.TrainMonitor(mdp)
    seen, batch = onp.zeros((mdp.ns, mdp.na)), 16
    while env.T < 900:
        s, _ = env.reset()
        for _ in range(30):
            a, logp = pi(s, return_logp=True)
            s2, r, done, trunc, _ = env.step(a)
            seen[s, a] += 1
            tracer.add(s, a, r, done or trunc, logp)
            while tracer:
                tb = tracer.pop()
                buf.add(tb, td.td_error(tb)) if prio else buf.add(tb)
            if len(buf) >= batch:
                tb = buf.sample(batch)
                env.record_metrics(td.update(tb))
                if prio:
                    buf.update(tb.idx, td.td_error(tb))
                targ.soft_update(q, tau=0.5)
            m.ev('agent-steps')
            if done:
                break
            s = s2
        else:
            tracer.reset()
    got = table(q, mdp)
    enough = seen >= 30
    m.true(onp.all((onp.abs(got - want) <= 0.15 * (1 + onp.abs(want))) | ~enough), 'agent-learns-the-optimal-values',
           f'{algo} prio={prio} soft={soft}', got, want, seen)
    greedy = coax.EpsilonGreedy(q, epsilon=0.)
    for s in range(mdp.ns):
        if onp.ptp(want[s]) > 0.5 and enough[s].all():
            m.eq(int(greedy(s)), int(want[s].argmax()), 'greedy-policy-is-optimal', want[s])
            m.ev('greedy-choices')
    m.ev('agents')
    m.nontrivial(algo, prio, soft, mdp.ns, gamma)
    m.sample(algo=algo, prioritized=prio, learned=got[0], exact=want[0])


@scenario(quick=14, thorough=300, floor={'bandits': 14})
def policy_gradient(m):
    """on a contextual bandit a policy gradient method finds the best action in every context"""
    rng = m.rng
    mdp = MDP(rng)
    for s in range(mdp.ns):                     # a clear winner everywhere
        mdp.rew[s] = rng.uniform(-1, 0.3, mdp.na)
        mdp.rew[s, int(rng.integers(mdp.na))] = 1.
    pi = make_pi(rng, mdp)
    ppo = bool(rng.random() < 0.5)
    cls = coax.policy_objectives.PPOClip if ppo else coax.policy_objectives.VanillaPG
    beta = float(pick(rng, [0., 0.01]))
    reg = coax.regularizers.EntropyRegularizer(pi, beta=beta) if beta else None
    po = cls(pi, optimizer=optax.sgd(1.0 * mdp.ns), regularizer=reg)
    n = 64
    for _ in range(60):
        S = onp.tile(onp.arange(mdp.ns), n // mdp.ns + 1)[:n]
        z = onp.array([onp.asarray(pi.dist_params(s)['logits'], 'float64') for s in range(mdp.ns)])
        p = softmax(z)
        A = onp.array([rng.choice(mdp.na, p=p[s]) for s in S])
        logp = onp.log(p[S, A])
        adv = mdp.rew[S, A] - (p * mdp.rew).sum(1)[S]
        tb = TransitionBatch(S=S, A=A, logP=logp.astype('float32'), Rn=mdp.rew[S, A].astype('float32'),
                             In=onp.zeros(n, 'float32'), S_next=S, A_next=A, logP_next=logp.astype('float32'),
                             W=onp.ones(n, 'float32'), idx=onp.arange(n))
        po.update(tb, adv.astype('float32'))
    p = onp.array([softmax(onp.asarray(pi.dist_params(s)['logits'], 'float64')) for s in range(mdp.ns)])
    best = mdp.rew.argmax(1)
    m.true(onp.all(p[onp.arange(mdp.ns), best] > 0.75), 'the-best-action-is-preferred', p, mdp.rew)
    for s in range(mdp.ns):
        m.eq(int(pi.mode(s)), int(best[s]), 'mode-is-the-best-action')
    m.ev('bandits')
    m.nontrivial(ppo, beta, mdp.ns, mdp.na)
    m.sample(ppo=ppo, probabilities=p[0], rewards=mdp.rew[0])


@scenario(quick=12, thorough=250, floor={'actors': 12})
def continuous_actor(m):
    """deterministic and soft policy gradients climb to the maximum of the critic"""
    rng = m.rng
    ns, d = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    e = types.SimpleNamespace(observation_space=gym.spaces.Discrete(ns),
                              action_space=gym.spaces.Box(-2., 2., (d,), dtype='float32'))
    goal = rng.uniform(-1.5, 1.5, (ns, d)).astype('float32')          # in the raw space of the policy

    def critic(offset):
        def func(S, A, is_training):
            b = hk.get_parameter('b', (), init=hk.initializers.Constant(offset))
            return b - jnp.square(A - S @ jnp.asarray(goal)).sum(1)
        return coax.Q(func, e, action_preprocessor=coax.proba_dists.NormalDist(e.action_space).preprocess_variate,
                      random_seed=1)

    def actor(S, is_training):
        mu = S @ hk.get_parameter('mu', (ns, d), init=hk.initializers.RandomNormal(1.))
        return {'mu': mu, 'logvar': mu * 0 - 6.}
    pi = coax.Policy(actor, e, random_seed=int(rng.integers(2 ** 31)))
    soft = bool(rng.random() < 0.5)
    opt = optax.adam(0.1)
    po = coax.policy_objectives.SoftPG(pi, [critic(0.), critic(1.)], optimizer=opt) if soft else \
        coax.policy_objectives.DeterministicPG(pi, critic(0.), optimizer=opt)
    S = onp.arange(ns)
    A = onp.zeros((ns, d), 'float32')
    tb = TransitionBatch(S=S, A=A, logP=onp.zeros(ns, 'float32'), Rn=onp.zeros(ns, 'float32'),
                         In=onp.zeros(ns, 'float32'), S_next=S, A_next=A, logP_next=onp.zeros(ns, 'float32'),
                         W=onp.ones(ns, 'float32'), idx=S)
    for _ in range(150):
        po.update(tb)
    want = 4 / (1 + onp.exp(-goal.astype('float64'))) - 2
    got = onp.array([pi.mode(s) for s in range(ns)])
    m.true(onp.all(onp.abs(got - want) < 0.15), 'the-actor-finds-the-best-action', f'soft={soft}', got, want)
    m.ev('actors')
    m.nontrivial(ns, d, soft)
    m.sample(soft=soft, action=got[0], best=want[0])


@scenario(quick=14, thorough=300, floor={'return-distributions': 14})
def distributional(m):
    """a distributional critic of a deterministic environment concentrates on the exact return"""
    rng = m.rng
    mdp, gamma = MDP(rng, ns=int(rng.integers(2, 4)), na=2, ends=0.5), 0.6
    algo = pick(rng, ['QLearning', 'Sarsa', 'DoubleQLearning'])
    a_next = rng.integers(mdp.na, size=mdp.ns)
    want = fixed_point(mdp, gamma, (lambda x: x[onp.arange(mdp.ns), a_next]) if algo == 'Sarsa' else
                       (lambda x: x.max(1)))
    cat = bool(rng.random() < 0.5)
    bins = 31 if cat else int(rng.integers(3, 9))
    lim = float(onp.abs(want).max() + 2)
    mt = int(rng.integers(1, 3))

    def out(S, A):
        t = hk.get_parameter('t', (mdp.ns, mdp.na, bins), init=hk.initializers.RandomNormal(0.1))
        o = jnp.einsum('bs,sak->bak', S, t) if A is None else jnp.einsum('bs,ba,sak->bk', S, A, t)
        if cat:
            return {'logits': o}
        fr = (jnp.arange(bins) + 0.5) / bins
        return {'values': o, 'quantile_fractions': jnp.broadcast_to(fr, o.shape)}

    func = (lambda S, A, is_training: out(S, A)) if mt == 1 else (lambda S, is_training: out(S, None))
    q = coax.StochasticQ(func, mdp, value_range=(-lim, lim) if cat else None, num_bins=bins,
                         random_seed=int(rng.integers(2 ** 31)))
    targ = q.copy()
    td = getattr(coax.td_learning, algo)(q, q_targ=targ, optimizer=optax.adam(0.15 if cat else 0.05))
    tb = sweep(mdp, gamma, a_next)
    for _ in range(500):
        td.update(tb)
        targ.soft_update(q, tau=0.2)
    got = onp.array([[float(q.mean(s, a)) for a in range(mdp.na)] for s in range(mdp.ns)])
    m.true(onp.all(onp.abs(got - want) < 0.12 * (1 + lim / 4)), 'mean-is-the-exact-return', f'{algo} cat={cat} mt={mt}',
           got, want)
    m.ev('return-distributions')
    m.nontrivial(algo, cat, mt, bins, mdp.ns)
    m.sample(algo=algo, categorical=cat, learned=got[0], exact=want[0])
