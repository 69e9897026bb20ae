"""C21: environment wrappers pass every interaction on exactly once, mapped as documented."""
import gymnasium as gym
import jax
import numpy as onp

import coax
from vmon import scenario
from vmon.gen import pick
from vmon.spaces import element, space


class Recorder(gym.Env):
    def __init__(self, rng, obs, act):
        self.observation_space, self.action_space, self.g = obs, act, rng
        self.action_space.seed(int(rng.integers(2 ** 31)))
        self.calls = []
        self.seen = []

    def reset(self, **kw):
        self.calls.append(('reset', kw))
        s = element(self.g, self.observation_space)
        self.seen.append(s)
        self.info = {'k': len(self.calls)}
        return s, self.info

    def step(self, a):
        self.calls.append(('step', a))
        s = element(self.g, self.observation_space)
        self.seen.append(s)
        self.ret = (float(self.g.normal()), bool(self.g.random() < 0.1), bool(self.g.random() < 0.1))
        self.info = {'k': len(self.calls)}
        return (s,) + self.ret + (self.info,)


def rec(m, obs=None, act=None):
    g = onp.random.default_rng(int(m.rng.integers(2 ** 31)))
    obs = obs or space(m.rng)
    return Recorder(g, obs, act or gym.spaces.Discrete(3))


def copy(x):
    return jax.tree_util.tree_map(onp.array, x)


def same(m, a, b, rule):
    m.tree_eq(a, b, rule)


def passed_on(m, raw, n, out, rule='step-is-passed-on-once'):
    m.true(len(raw.calls) == n + 1 and raw.calls[-1][0] == 'step', rule, raw.calls[n:])
    m.eq(tuple(out[1:4]), raw.ret, 'reward-and-flags-are-passed-on')
    m.eq(out[4]['k'], len(raw.calls), 'info-is-passed-on')
    return raw.calls[-1][1]


@scenario(quick=60, thorough=3000, floor={'stacks': 1500})
def frame_stacking(m):
    rng = m.rng
    raw = rec(m)
    k = int(rng.integers(1, 6))
    env = coax.wrappers.FrameStacking(raw, num_frames=k)
    m.true(isinstance(env.observation_space, gym.spaces.Tuple) and len(env.observation_space.spaces) == k
           and all(s == raw.observation_space for s in env.observation_space.spaces), 'observation-space')
    window, kept, fresh = [], [], True
    for _ in range(40):
        if fresh or rng.random() < 0.1:
            kw = {'seed': int(rng.integers(9))} if rng.random() < 0.3 else {}
            s, info = env.reset(**kw)
            m.eq(raw.calls[-1], ('reset', kw), 'reset-is-passed-on')
            m.eq(info, raw.info, 'reset-info-is-passed-on')
            window, fresh = [raw.seen[-1]] * k, False
        else:
            n, a = len(raw.calls), raw.action_space.sample()
            out = env.step(a)
            m.eq(passed_on(m, raw, n, out), a, 'action-is-passed-on')
            s = out[0]
            window = (window + [raw.seen[-1]])[-k:]
            fresh = (out[2] or out[3]) and rng.random() < 0.8
        m.true(isinstance(s, tuple) and len(s) == k, 'tuple-of-frames', type(s), len(s), k)
        for got, want in zip(s, window):
            same(m, got, want, 'most-recent-frames-in-order')
        m.true(env.observation_space.contains(s), 'element-of-the-observation-space')
        kept.append((s, copy(s)))
        m.ev('stacks')
    for s, c in kept:
        same(m, s, c, 'earlier-stacks-do-not-change')
    for bad in (0, -1, 2.0, '2', None):
        m.raises(TypeError, lambda: coax.wrappers.FrameStacking(raw, bad), 'bad-num-frames-refused', bad)
    m.nontrivial(str(raw.observation_space)[:60], k)
    m.sample(space=str(raw.observation_space), k=k)


def boxact(rng):
    shape = pick(rng, [(1,), (2,), (3,), (2, 2), (1, 3)])
    scale = float(pick(rng, [1e-2, 1, 1, 50, 1e4]))
    lo = (rng.uniform(-2, 1, shape) * scale)
    hi = lo + rng.uniform(0.1, 3, shape) * scale
    dt = pick(rng, ['float32', 'float32', 'float64'])
    return gym.spaces.Box(lo.astype(dt), hi.astype(dt), dtype=dt)


@scenario(quick=60, thorough=3000, floor={'real-actions': 800})
def box_to_reals(m):
    rng = m.rng
    raw = rec(m, gym.spaces.Discrete(3), boxact(rng))
    env = coax.wrappers.BoxActionsToReals(raw)
    env.action_space.seed(int(rng.integers(2 ** 31)))
    size = int(onp.prod(raw.action_space.shape))
    m.eq(env.action_space.shape, (size,), 'flat-action-space')
    env.reset()
    lo, hi = raw.action_space.low.astype('float64'), raw.action_space.high.astype('float64')
    for _ in range(20):
        scale = float(pick(rng, [0.1, 1, 1, 5, 100, 1e8]))
        a = (rng.normal(size=size) * scale).astype(env.action_space.dtype)
        if rng.random() < 0.2:
            a = env.action_space.sample()
        n = len(raw.calls)
        a0 = a.copy()
        out = env.step(a)
        fed = passed_on(m, raw, n, out)
        m.eq(a, a0, 'given-action-is-not-modified')
        m.true(raw.action_space.contains(fed), 'action-fed-is-in-the-original-space',
               f'{fed!r} dtype={getattr(fed, "dtype", None)} in {raw.action_space}')
        with onp.errstate(over='ignore'):
            want = lo + (hi - lo) / (1 + onp.exp(-onp.clip(a.astype('float64'), -700, 700).reshape(lo.shape)))
        m.close((fed - lo) / (hi - lo), (want - lo) / (hi - lo), 'sigmoid-map', rtol=1e-4,
                atol=1e-5 + 1e-6 * float(onp.max(onp.abs(lo) / (hi - lo))))
        m.true(len(out[4]['a_orig']) == 1 and onp.array_equal(out[4]['a_orig'][0], fed), 'original-action-in-info')
        m.ev('real-actions')
    m.raises(NotImplementedError, lambda: coax.wrappers.BoxActionsToReals(rec(m)), 'non-box-refused')
    m.nontrivial(raw.action_space.shape, str(raw.action_space.dtype))
    m.sample(space=str(raw.action_space), fed=fed)


@scenario(quick=60, thorough=3000, floor={'binned-actions': 1500, 'bin-spread': 40})
def box_to_discrete(m):
    rng = m.rng
    raw = rec(m, gym.spaces.Discrete(3), boxact(rng))
    size = int(onp.prod(raw.action_space.shape))
    uniform = bool(rng.random() < 0.5)
    nvec = [int(x) for x in (rng.integers(1, 9, size) if not uniform else [rng.integers(1, 9)] * size)]
    seed = int(rng.integers(1000))

    def make(raw):
        return coax.wrappers.BoxActionsToDiscrete(raw, nvec[0] if uniform else tuple(nvec), random_seed=seed)

    env = make(raw)
    env.action_space.seed(int(rng.integers(2 ** 31)))
    if size == 1:
        m.true(isinstance(env.action_space, gym.spaces.Discrete) and int(env.action_space.n) == nvec[0],
               'discrete-action-space')
    else:
        m.true(isinstance(env.action_space, gym.spaces.MultiDiscrete)
               and list(env.action_space.nvec.ravel()) == nvec, 'multi-discrete-action-space')
    env.reset()
    lo, hi = raw.action_space.low.astype('float64').ravel(), raw.action_space.high.astype('float64').ravel()
    acts, fedall, us = [], [], []
    for _ in range(30):
        a = env.action_space.sample()
        n = len(raw.calls)
        out = env.step(a)
        fed = passed_on(m, raw, n, out)
        m.true(raw.action_space.contains(fed), 'action-fed-is-in-the-original-space',
               f'{fed!r} dtype={getattr(fed, "dtype", None)} in {raw.action_space}')
        u = (onp.asarray(fed, 'float64').ravel() - lo) / (hi - lo) * nvec - onp.asarray(a).ravel()
        slack = 1e-5 * (1 + onp.max(onp.abs(lo) / (hi - lo))) * max(nvec)
        m.true(bool(onp.all((u > -slack) & (u < 1 + slack))), 'action-lies-in-the-chosen-bin', f'a={a} u={u}')
        m.true(len(out[4]['a_orig']) == 1 and onp.array_equal(out[4]['a_orig'][0], fed), 'original-action-in-info')
        acts.append(a)
        fedall.append(onp.array(fed))
        us.append(u)
        m.ev('binned-actions')
    us = onp.concatenate(us)
    z = abs(us.mean() - 0.5) / onp.sqrt(1 / 12 / len(us))
    m.true(z < 6.5, 'uniform-within-the-bin', f'mean={us.mean()} n={len(us)}')
    m.true(us.max() - us.min() > 0.3, 'random-within-the-bin')
    m.ev('bin-spread')
    raw2 = rec(m, gym.spaces.Discrete(3), raw.action_space)
    env2 = make(raw2)
    for a, f in zip(acts, fedall):
        env2.step(a)
        m.eq(onp.asarray(raw2.calls[-1][1]), f, 'same-seed-same-actions')
    m.raises(NotImplementedError, lambda: coax.wrappers.BoxActionsToDiscrete(rec(m), 3), 'non-box-refused')
    m.raises(ValueError, lambda: coax.wrappers.BoxActionsToDiscrete(raw, (2,) * (size + 1)), 'bad-bins-refused')
    m.raises(TypeError, lambda: coax.wrappers.BoxActionsToDiscrete(raw, 2.5), 'bad-bins-refused')
    m.nontrivial(raw.action_space.shape, tuple(nvec))
    m.sample(space=str(raw.action_space), bins=nvec)


@scenario(quick=40, thorough=1500, floor={'meta-steps': 500, 'with-propensity': 100})
def meta_policy(m):
    rng = m.rng
    n = int(rng.integers(2, 5))
    raw = rec(m, None, gym.spaces.Discrete(n))
    log = []

    def plain(i):
        def pi(s):
            log.append((i, s, None))
            return i % n
        return pi

    class WithLogp:
        def __init__(self, i):
            self.i = i

        def __call__(self, s, return_logp=False):
            log.append((self.i, s, return_logp))
            return (self.i % n, -0.5 - self.i) if return_logp else self.i % n

        def mode(self, s):
            log.append((self.i, s, None))
            return self.i % n

    arms, haslogp = [], []
    for i in range(int(rng.integers(1, 6))):
        k = pick(rng, ['plain', 'obj', 'bound'])
        arms.append({'plain': plain(i), 'obj': WithLogp(i), 'bound': WithLogp(i).mode}[k])
        haslogp.append(k == 'obj')
    env = coax.wrappers.MetaPolicyEnv(raw, *arms)
    m.eq(int(env.action_space.n), len(arms), 'one-meta-action-per-arm')
    kw = {'seed': 3} if rng.random() < 0.5 else {}
    s, info = env.reset(**kw)
    m.eq(raw.calls[-1], ('reset', kw), 'reset-is-passed-on')
    for _ in range(25):
        if rng.random() < 0.1:
            s, info = env.reset()
        a = int(rng.integers(len(arms)))
        k, before = len(raw.calls), len(log)
        cur = raw.seen[-1]
        out = env.step(a)
        fed = passed_on(m, raw, k, out)
        m.true(len(log) == before + 1 and log[-1][0] == a, 'the-chosen-arm-is-asked-once', log[before:])
        same(m, log[-1][1], cur, 'the-arm-sees-the-current-observation')
        m.eq(fed, a % n, 'the-arm-s-action-is-played')
        m.eq(out[4]['a'], a % n, 'low-level-action-in-info')
        m.close(out[4]['logp'], -0.5 - a if haslogp[a] else 0., 'propensity-in-info')
        same(m, out[0], raw.seen[-1], 'observation-is-passed-on')
        m.ev('meta-steps')
        m.ev('with-propensity', haslogp[a])
    m.raises(AssertionError, lambda: env.step(len(arms)), 'unknown-arm-refused')
    fresh = coax.wrappers.MetaPolicyEnv(raw, *arms)
    m.raises(AssertionError, lambda: fresh.step(0), 'step-before-reset-refused')
    m.nontrivial(len(arms), tuple(haslogp))
    m.sample(arms=len(arms), haslogp=haslogp)


@scenario(quick=16, thorough=400, floor={'stacked-steps': 200})
def wrappers_compose(m):
    """nested wrappers: every layer's map is applied, the list of original actions is complete"""
    rng = m.rng
    raw = rec(m, gym.spaces.Box(-1, 1, (2,)), boxact(rng))
    inner = coax.wrappers.BoxActionsToReals(raw)
    mon = coax.wrappers.TrainMonitor(inner)
    env = coax.wrappers.FrameStacking(mon, 2)
    G, T = 0., 0
    env.reset()
    for _ in range(20):
        a = rng.normal(size=inner.action_space.shape).astype(inner.action_space.dtype)
        n = len(raw.calls)
        out = env.step(a)
        fed = passed_on(m, raw, n, out)
        T += 1
        G += raw.ret[0]
        m.true(onp.array_equal(out[4]['a_orig'][-1], fed), 'original-action-in-info')
        m.eq(out[4]['monitor'], {'T': T, 'ep': 1}, 'monitor-info')
        m.eq((mon.t, mon.T), (T, T + 1), 'monitor-counts')
        m.close(mon.G, G, 'monitor-return', rtol=1e-5, atol=1e-5)
        m.eq(onp.asarray(out[0][-1]), onp.asarray(raw.seen[-1]), 'newest-frame')
        m.eq(onp.asarray(out[0][0]), onp.asarray(raw.seen[-2]), 'previous-frame')
        m.ev('stacked-steps')
    # two action wrappers on top of each other: both original actions are listed, innermost first
    raw = rec(m, gym.spaces.Box(-1, 1, (2,)), boxact(rng))
    first = coax.wrappers.BoxActionsToReals(raw)
    two = coax.wrappers.BoxActionsToReals(first) if rng.random() < 0.5 else \
        coax.wrappers.BoxActionsToDiscrete(first, num_bins=3, random_seed=int(rng.integers(1000)))
    two.action_space.seed(int(rng.integers(2 ** 31)))
    two.reset()
    for _ in range(4):
        n = len(raw.calls)
        out = two.step(two.action_space.sample())
        fed = passed_on(m, raw, n, out)
        a_orig = out[4]['a_orig']
        m.eq(len(a_orig), 2, 'every-layer-lists-its-action')
        m.true(onp.array_equal(a_orig[0], fed), 'original-action-in-info')
        m.true(first.action_space.contains(a_orig[1]), 'action-fed-is-in-the-original-space')
        m.ev('stacked-steps')
    m.nontrivial(raw.action_space.shape)
    m.sample(T=T, G=G)
