"""C26: the same seeds give the same run, whatever else happens in the process."""
import copy
import gc
import json
import os
import random
import subprocess
import sys

import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from vmon import scenario
from vmon import dtd, pg, td
from vmon.gen import pick
from vmon.models import Act, DistModel, Obs, PiModel, QModel, SAModel, VModel, alike, batch, env, obs_outputs


def snap(f):
    return jax.tree_util.tree_map(onp.array, (f.params, f.function_state))


def disturb(g):
    """things that a program does besides; none of them may matter"""
    k = int(g.integers(7))
    if k == 0:
        onp.random.seed(int(g.integers(2 ** 31)))
    elif k == 1:
        onp.random.rand(3)
        random.random()
    elif k == 2:
        random.seed(int(g.integers(99)))
    elif k == 3:
        gc.collect()
    elif k == 4:
        b = coax.experience_replay.SimpleReplayBuffer(3)
        t = coax.reward_tracing.NStep(1, 0.9)
        t.add(1, 2, 3., True)
        b.add(t.pop())
        b.sample(1)
    elif k == 5:
        coax.utils.safe_sample(gym.spaces.Box(-1, 1, (3,)))
        jax.random.normal(jax.random.PRNGKey(int(g.integers(99))), (2,)).block_until_ready()
    else:
        noise = coax.utils.OrnsteinUhlenbeckNoise()
        noise(onp.zeros(2))


def agent(seed, kind, disturbed):
    """one complete little training run; returns everything it produced"""
    rng = onp.random.default_rng(seed)
    noise = onp.random.default_rng(seed + 1)
    poke = (lambda: disturb(noise)) if disturbed else (lambda: None)
    out = []
    poke()
    if kind == 'td':
        su = td.Setup(rng, optimizer=optax.adam(0.02))
        u, main, fs = su.td, su.main.f, [x.f for x in su.models()]
    elif kind == 'dtd':
        su = dtd.DSetup(rng, optimizer=optax.adam(0.02))
        u, main, fs = su.td, su.main.f, [x.f for x in su.models()]
    else:
        su = pg.PGSetup(rng, optimizer=optax.adam(0.02))
        u, main, fs = su.po, su.pi.f, [q.f for q in su.qs]
    cap = int(rng.integers(6, 30))
    prior = bool(rng.random() < 0.5)
    bseed = int(rng.integers(2 ** 31))
    buf = coax.experience_replay.PrioritizedReplayBuffer(cap, alpha=0.6, random_seed=bseed) if prior else \
        coax.experience_replay.SimpleReplayBuffer(cap, random_seed=bseed)
    beh = PiModel(rng, su.obs, su.act).f
    if su.act.kind == 'disc' and rng.random() < 0.7:
        q = QModel(rng, su.obs, su.act).f
        beh = coax.EpsilonGreedy(q, epsilon=0.4) if rng.random() < 0.5 else coax.BoltzmannPolicy(q, temperature=0.5)
    elif rng.random() < 0.3:
        beh = coax.RandomPolicy(env(su.obs, su.act), random_seed=int(rng.integers(2 ** 31)))
    tracer = coax.reward_tracing.NStep(int(rng.integers(1, 4)), 0.9)
    out.append(snap(main))
    for t in range(24):
        poke()
        s = su.obs.sample(rng)
        a, logp = beh(s, return_logp=True)
        out.append((onp.array(a), onp.array(logp)))
        poke()
        tracer.add(s, a, float(rng.normal()), t % 7 == 6, min(0.0, float(logp)))
        while tracer:
            b = tracer.pop()
            buf.add(b, Adv=onp.abs(b.Rn) + 0.1) if prior else buf.add(b)
        if len(buf) >= 4 and t % 3 == 0:
            poke()
            tb = buf.sample(batch_size=4)
            if su.act.kind == 'box':       # keep away from the bounds of the box, where logits blow up
                tb.A, tb.A_next = su.act.sample(rng, 4), su.act.sample(rng, 4)
            out.append(jax.tree_util.tree_map(onp.array, tuple(jax.tree_util.tree_leaves(tb))))
            adv = rng.normal(size=4).astype('float32')
            poke()
            try:
                met = u.update(tb, adv) if kind == 'pg' else u.update(tb)
                out.append({k: onp.array(v) for k, v in met.items()})
            except RuntimeError as e:
                assert 'nan' in str(e)
            for f in fs:
                if f is not main and type(f) is type(main) and alike(f, main):
                    f.soft_update(main, tau=0.2)
            out.append(snap(main))
    return out, su.describe() + (prior, type(beh).__name__)


def first_difference(a, b, tol=0.0):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        return 'structure', len(la), len(lb)
    for i, (x, y) in enumerate(zip(la, lb)):
        x, y = onp.asarray(x), onp.asarray(y)
        if x.shape != y.shape or not onp.allclose(x.astype('float64'), y.astype('float64'), rtol=tol, atol=tol,
                                                  equal_nan=True):
            return i, x, y
    return None


@scenario(quick=24, thorough=900, floor={'runs-compared': 12, 'values-compared': 1000})
def whole_runs(m):
    kind = ['td', 'dtd', 'pg'][m.index % 3]
    seed = int(m.rng.integers(2 ** 31))
    a, desc = agent(seed, kind, False)
    b, _ = agent(seed, kind, True)
    d = first_difference(a, b, 1e-6)
    m.true(d is None, 'same-seeds-same-run', desc, str(d))
    m.ev('runs-compared')
    m.ev('values-compared', len(jax.tree_util.tree_leaves(a)))
    m.nontrivial(desc)
    m.sample(config=desc)


MAKERS = {
    'v': lambda r, s: VModel(r, Obs(r, rich=True), seed=s).f,
    'q': lambda r, s: QModel(r, Obs(r, rich=True), Act(r, rich=True), seed=s).f,
    'pi': lambda r, s: PiModel(r, Obs(r, rich=True), Act(r, rich=True), seed=s).f,
}


def linear(kind, obs, act, seed):
    """functions whose initial parameters are random (haiku initialisers)"""
    import haiku as hk

    def feat(S):
        return jnp.concatenate([S['a'], S['b']], 1) if isinstance(S, dict) else S
    e = env(obs, act)
    if kind == 'v':
        return coax.V(lambda S, is_training: jnp.ravel(hk.Linear(1)(feat(S))), e, random_seed=seed)
    if kind == 'q':
        return coax.Q(lambda S, is_training: hk.Linear(act.n)(feat(S)), e, random_seed=seed)
    if kind == 'pi':
        return coax.Policy(lambda S, is_training: {'logits': hk.Linear(act.n)(feat(S))}, e, random_seed=seed)
    if kind == 'sv':
        return coax.StochasticV(lambda S, is_training: {'logits': hk.Linear(5)(feat(S))}, e, (-1, 2), num_bins=5,
                                random_seed=seed)
    if kind == 'sq':
        return coax.StochasticQ(
            lambda S, is_training: {'logits': hk.Linear(act.n * 5)(feat(S)).reshape(-1, act.n, 5)}, e, (-1, 2),
            num_bins=5, random_seed=seed)
    if kind == 'reward':
        return coax.RewardFunction(lambda S, is_training: hk.Linear(act.n)(feat(S)), e, random_seed=seed)
    if kind == 'model':
        return coax.TransitionModel(
            lambda S, is_training: hk.Linear(act.n * obs.d)(feat(S)).reshape(-1, act.n, obs.d), e, random_seed=seed)
    return coax.StochasticTransitionModel(
        lambda S, is_training: {k: hk.Linear(act.n * obs.d)(feat(S)).reshape(-1, act.n, obs.d)
                                for k in ('mu', 'logvar')}, e, random_seed=seed)


KINDS = ['v', 'q', 'pi', 'sv', 'sq', 'reward', 'model', 'smodel']


def a_seed(rng):
    return int(pick(rng, [0, 0, 1, 42, 2 ** 31 - 20, rng.integers(2 ** 16), rng.integers(2 ** 31 - 20)]))


def another_seed(rng, seed):
    step = int(pick(rng, [1, 7, 100, 1000, 1024, 10 ** 6, 2 ** 16, 2 ** 20]))
    return seed + step if seed + step < 2 ** 31 else seed - step


@scenario(quick=48, thorough=1200, floor={'functions': 48, 'draws': 300})
def functions(m):
    rng = m.rng
    kind = KINDS[m.index % len(KINDS)]
    obs = Obs(rng, 'box' if 'model' in kind else None)
    act = Act(rng, 'disc')
    seed = a_seed(rng)
    noise = onp.random.default_rng(seed)
    f = linear(kind, obs, act, seed)
    disturb(noise)
    other = linear(kind, obs, act, another_seed(rng, seed))
    g = linear(kind, obs, act, seed)
    m.tree_eq(g.params, f.params, 'same-seed-same-parameters', kind)
    d = [onp.asarray(x) for x in jax.tree_util.tree_leaves(other.params)]
    m.true(any(not onp.array_equal(x, y) for x, y in zip(d, jax.tree_util.tree_leaves(f.params))),
           'different-seed-different-parameters', kind)
    args = (lambda: (obs.sample(rng),)) if kind in ('v', 'pi', 'sv') else (lambda: (obs.sample(rng), act.sample(rng)))
    draws = []
    for _ in range(10):
        x = args()
        kw = {'return_logp': True} if kind in ('pi', 'sv', 'sq', 'smodel') else {}
        y1 = f(*x, **kw)
        disturb(noise)
        other(*x)
        y2 = g(*x, **kw)
        m.tree_eq(y2, y1, 'same-seed-same-draws', kind)
        m.ev('draws')
    if kind in ('pi', 'sv', 'sq', 'smodel'):
        x = args()
        draws = [str(f(*x)) for _ in range(60)]
        m.true(len(set(draws)) > 1, 'draws-are-not-frozen', kind, draws[0])
    # a new seed restarts the stream
    f.random_seed = g.random_seed = a_seed(rng)
    for _ in range(3):
        x = args()
        m.tree_eq(g(*x), f(*x), 'reseeded-draws', kind)
    # the stream does not repeat
    keys = [tuple(onp.asarray(f.rng).ravel().tolist()) for _ in range(400)]
    m.eq(len(set(keys)), 400, 'random-keys-do-not-repeat', kind)
    # without a seed: a stream of its own
    u, w = linear(kind, obs, act, None), linear(kind, obs, act, None)
    m.true(any(not onp.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(u.params),
                                                         jax.tree_util.tree_leaves(w.params))),
           'unseeded-objects-differ', kind)
    m.ev('functions')
    m.nontrivial(kind, obs.kind)


CHILD = '''
import sys, json, warnings, logging
warnings.filterwarnings('ignore'); logging.disable(logging.CRITICAL)
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import numpy as onp, jax
from checks import c26
out = {}
for kind, seed in json.loads(sys.argv[3]):
    a, _ = c26.agent(seed, kind, False)
    out[kind + str(seed)] = [[float(v) for v in onp.ravel(onp.asarray(x, 'float64'))] for x in jax.tree_util.tree_leaves(a)]
print('RESULT ' + json.dumps(out))
'''


@scenario(quick=2, thorough=24, floor={'processes-compared': 2})
def across_processes(m):
    """two processes with different hash seeds and process ids produce the same run"""
    jobs = [(k, int(m.rng.integers(2 ** 31))) for k in ('td', 'dtd', 'pg')]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    res = []
    for hs in (str(int(m.rng.integers(1, 1000))), str(int(m.rng.integers(1000, 4000)))):
        p = subprocess.run([sys.executable, '-c', CHILD, os.environ.get('VERIF_REPO', '/repo'), here, json.dumps(jobs)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200,
                           env={**os.environ, 'PYTHONHASHSEED': hs})
        line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
        m.true(bool(line), 'run-completes', p.stderr[-1500:])
        res.append(json.loads(line[0][7:]))
    for k in res[0]:
        a, b = res[0][k], res[1][k]
        same = len(a) == len(b) and all(len(x) == len(y) and onp.allclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True)
                                        for x, y in zip(a, b))
        m.true(same, 'same-run-in-another-process', k)
    m.ev('processes-compared', 2)
    m.nontrivial(str(jobs))


class Echo(gym.Env):
    """observes the action it was given"""
    def __init__(self, space):
        self.observation_space = self.action_space = space

    def reset(self, **kw):
        return self.action_space.sample() * 0, {}

    def step(self, a):
        return onp.array(a), 0.0, False, False, {}


@scenario(quick=64, thorough=2000, floor={'experience-draws': 500})
def sampling_sources(m):
    """buffers, noise and random policies: equal seeds, equal sequences; unequal seeds, unequal ones"""
    rng = m.rng
    noise = onp.random.default_rng(int(rng.integers(999)))
    seed = a_seed(rng)
    obs, act = Obs(rng, img=True), Act(rng)
    kind = ['simple', 'prioritized', 'ou', 'random', 'sumtree', 'bins', 'eps', 'example'][m.index % 8]
    box = gym.spaces.Box(-1, 1, (2,))

    def make(s):
        if kind == 'simple':
            return coax.experience_replay.SimpleReplayBuffer(30, random_seed=s)
        if kind == 'prioritized':
            return coax.experience_replay.PrioritizedReplayBuffer(30, alpha=0.5, random_seed=s)
        if kind == 'ou':
            return coax.utils.OrnsteinUhlenbeckNoise(sigma=0.5, random_seed=s)
        if kind == 'sumtree':
            x = coax.utils.SumTree(capacity=50, random_seed=s)
            x.set_values(..., weights)
            return x
        if kind == 'bins':
            return coax.wrappers.BoxActionsToDiscrete(Echo(box), num_bins=3, random_seed=s)
        if kind == 'eps':
            q = linear('q', obs, act, s)
            q.params = qparams or q.params
            return coax.EpsilonGreedy(q, epsilon=0.9) if soft else coax.BoltzmannPolicy(q, temperature=10.0)
        if kind == 'example':
            return lambda: coax.utils.get_transition_batch(env(obs, act), batch_size=3, random_seed=s)
        return coax.RandomPolicy(copy.deepcopy(env(obs, act)), random_seed=s)    # a space carries its own generator

    weights, soft, qparams = rng.random(50), bool(rng.random() < 0.5), None
    if kind == 'eps':
        obs, act = Obs(rng), Act(rng, 'disc')
        qparams = linear('q', obs, act, 3).params
    xs = [make(seed), make(seed), make(another_seed(rng, seed)), make(None), make(None)]

    def fill(n):
        data = list(batch(rng, obs, act, n).to_singles())
        for t in data:
            for x in xs:
                x.add(t.copy(deep=True), Adv=onp.abs(t.Rn)) if kind == 'prioritized' else x.add(t.copy(deep=True))
    if kind in ('simple', 'prioritized'):
        fill(40)
    seqs = [[], [], [], [], []]
    for i in range(20):
        s, a = obs.sample(rng), rng.normal(size=3)
        n = int(pick(rng, [1, 5, 5, 29, 30]))
        if i % 6 == 5:                                           # the same events in the life of each of them
            if kind == 'ou':
                [x.reset() for x in xs]
            if kind in ('simple', 'prioritized'):
                if rng.random() < 0.5:
                    [x.clear() for x in xs]
                    fill(30)
                fill(7)
            if kind == 'prioritized':
                al = float(rng.uniform(0.2, 1))
                for x in xs:
                    x.alpha = al
            if kind == 'sumtree':
                [x.set_values(onp.arange(3), onp.ones(3) * i) for x in xs]
        b = int(rng.integers(0, 3))
        for j, x in enumerate(xs):
            disturb(noise)
            if kind in ('simple', 'prioritized'):
                v = onp.asarray(x.sample(batch_size=n).Rn)
            elif kind == 'ou':
                v = onp.asarray(x(a))
            elif kind == 'sumtree':
                v = onp.asarray(x.sample(n))
            elif kind == 'bins':
                v = onp.asarray(x.step(onp.array([b, i % 3]))[0])
            elif kind == 'example':
                v = onp.concatenate([onp.ravel(onp.asarray(z, 'float64')) for z in jax.tree_util.tree_leaves(x())])
            else:
                v = onp.asarray(x(s))
            seqs[j].append(v)
        m.eq(seqs[1][-1], seqs[0][-1], 'same-seed-same-sequence', kind, i)
        m.ev('experience-draws')
    m.true(str(seqs[2]) != str(seqs[0]), 'different-seed-different-sequence', kind)
    m.true(str(seqs[3]) != str(seqs[4]), 'unseeded-objects-differ', kind)
    m.nontrivial(kind, obs.kind, act.kind)
