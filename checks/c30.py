"""C30: DeepMind Control tasks are presented faithfully; a second copy of the task, driven directly, is the oracle."""
import os
import warnings

os.environ.setdefault('MUJOCO_GL', 'disable')
warnings.filterwarnings('ignore')

import gymnasium as gym  # noqa: E402
import numpy as onp  # noqa: E402
from dm_control import suite  # noqa: E402
from dm_env import specs  # noqa: E402

import coax  # noqa: E402
from coax.utils import make_dmc  # noqa: E402
from vmon import scenario  # noqa: E402
from vmon.gen import pick  # noqa: E402

TASKS = [x for x in suite.ALL_TASKS if x != ('quadruped', 'escape')]     # that one needs OpenGL
SMALL = [x for x in TASKS if x[0] in ('acrobot', 'cartpole', 'pendulum', 'point_mass', 'reacher', 'finger', 'lqr',
                                      'ball_in_cup', 'hopper', 'swimmer', 'fish')]


def flat(observation):
    return onp.concatenate([onp.asarray(v, 'float64').reshape(-1) for v in observation.values()]).astype('float32')


def bounds(spec_list):
    lo, hi = [], []
    for s in spec_list:
        n = int(onp.prod(s.shape))
        bounded = isinstance(s, specs.BoundedArray)
        lo.append(onp.broadcast_to(s.minimum, s.shape).reshape(-1) if bounded else onp.full(n, -onp.inf))
        hi.append(onp.broadcast_to(s.maximum, s.shape).reshape(-1) if bounded else onp.full(n, onp.inf))
    return onp.concatenate(lo).astype('float32'), onp.concatenate(hi).astype('float32')


def check_spaces(m, env, ref):
    for space, spec in ((env.action_space, [ref.action_spec()]),
                        (env.observation_space, list(ref.observation_spec().values()))):
        lo, hi = bounds(spec)
        m.true(isinstance(space, gym.spaces.Box) and space.dtype == 'float32', 'box-space', space)
        m.eq(space.low, lo, 'lower-bounds')
        m.eq(space.high, hi, 'upper-bounds')
        m.ev('spaces')


def action(rng, space):
    how = rng.random()
    if how < 0.2:
        return onp.where(rng.random(space.shape) < 0.5, space.low, space.high).astype('float32')
    lo, hi = onp.maximum(space.low, -2), onp.minimum(space.high, 2)
    return rng.uniform(lo, hi).astype('float32')


def a_seed(rng):
    return int(pick(rng, [0, 1, 42, 2 ** 31 - 1, 2 ** 32 - 1])) if rng.random() < 0.4 else int(rng.integers(2 ** 31))


def load(domain, task, seed):
    return suite.load(domain, task, task_kwargs={'random': seed})


def follow(m, env, ref, steps, obs, info, limit=None):
    """drive env and ref with the same actions; both have just been reset"""
    rng = m.rng
    m.true(isinstance(info, dict), 'info-is-a-dict')
    for t in range(steps):
        a = action(rng, env.action_space)
        keep = a.copy()
        obs, r, term, trunc, info = env.step(a)
        ts = ref.step(a.astype('float64') if ref.action_spec().dtype == onp.float64 else a)
        m.eq(a, keep, 'action-not-modified')
        m.eq(obs, flat(ts.observation), 'observation')
        m.true(obs.dtype == onp.float32 and obs.shape == env.observation_space.shape, 'observation-type')
        m.eq(float(r), float(ts.reward), 'reward')
        m.eq(bool(term), bool(ts.last()), 'terminated-when-the-task-ends')
        m.eq(bool(trunc), limit is not None and t + 1 >= limit, 'truncated-at-the-step-limit', t, limit)
        m.ev('dmc-steps')
        if term:
            m.ev('dmc-ends')
        if term or trunc:
            return t + 1
    return steps


@scenario(quick=50, thorough=400, floor={'dmc-steps': 800, 'spaces': 100})
def every_task(m):
    rng = m.rng
    domain, task = TASKS[m.index % len(TASKS)]
    seed = a_seed(rng)
    env, ref = make_dmc(domain, task, seed=seed), load(domain, task, seed)
    m.log(domain, task, seed)
    check_spaces(m, env, ref)
    for ep in range(5):
        again = ep >= 2
        if again:                       # reset(seed=...) restarts the generator
            seed = 0 if ep == 3 else seed if ep == 4 and rng.random() < 0.5 else a_seed(rng)
            obs, info = env.reset(seed=seed)
            ref = load(domain, task, seed)
        else:
            obs, info = env.reset()
        ts = ref.reset()
        m.eq(obs, flat(ts.observation), 'first-observation', again)
        m.true(env.observation_space.contains(obs), 'observation-in-the-space')
        follow(m, env, ref, int(rng.integers(5, 25)), obs, info)
    m.nontrivial(domain, task)
    m.sample(task=f'{domain}/{task}', seed=seed, observation=obs[:4])


@scenario(quick=14, thorough=150, floor={'dmc-steps': 1500, 'truncations': 8})
def arguments(m):
    """every call honours its own arguments, whatever was asked for the same task before"""
    rng = m.rng
    domain, task = SMALL[int(rng.integers(len(SMALL)))]
    envs = []
    for _ in range(3):
        kw = dict(seed=a_seed(rng), max_episode_steps=int(pick(rng, [1, 2, 7, 30, 60])),
                  height=int(rng.integers(8, 100)), width=int(rng.integers(8, 100)), camera_id=int(rng.integers(0, 2)))
        kw = {k: v for k, v in kw.items() if rng.random() < 0.8}
        envs.append((kw, make_dmc(domain, task, **kw)))
    for i in rng.permutation(3):
        kw, env = envs[i]
        ref = load(domain, task, kw.get('seed', 0))
        obs, info = env.reset()
        m.eq(obs, flat(ref.reset().observation), 'seed-honoured', kw)
        limit = kw.get('max_episode_steps', 1000)
        m.eq(follow(m, env, ref, 70, obs, info, limit), min(limit, 70), 'step-limit', kw)
        m.ev('truncations', int(limit <= 70))
        calls = []                        # no OpenGL here: the renderer is replaced by a recorder
        env.unwrapped.dmc_env = _Recorder(calls)
        frame = env.render()
        m.eq(frame, ('frame',), 'frame-returned')
        want = dict(height=kw.get('height', 84), width=kw.get('width', 84), camera_id=kw.get('camera_id', 0))
        m.eq(calls, [want], 'frame-size-and-camera')
    m.nontrivial(domain, task, tuple(sorted(envs[0][0])))
    m.sample(task=f'{domain}/{task}', arguments=[k for k, _ in envs])


class _Recorder:
    def __init__(self, calls):
        self.calls, self.physics = calls, self

    def render(self, height=240, width=320, camera_id=-1, **kw):
        self.calls.append(dict(height=height, width=width, camera_id=camera_id, **kw))
        return ('frame',)


@scenario(quick=6, thorough=60, floor={'dmc-ends': 6, 'dmc-steps': 3000})
def task_end(m):
    """to the task's own time limit"""
    rng = m.rng
    domain, task = [('cartpole', 'balance'), ('pendulum', 'swingup'), ('finger', 'spin'), ('reacher', 'easy'),
                    ('point_mass', 'easy'), ('ball_in_cup', 'catch'), ('acrobot', 'swingup')][m.index % 7]
    seed = int(rng.integers(2 ** 31))
    env, ref = make_dmc(domain, task, seed=seed, max_episode_steps=2000), load(domain, task, seed)
    for _ in range(2):
        obs, info = env.reset()
        m.eq(obs, flat(ref.reset().observation), 'first-observation')
        n = follow(m, env, ref, 1500, obs, info, 2000)
        m.true(n < 1500, 'the-task-ended', n)
    m.nontrivial(domain, task)
    m.sample(task=f'{domain}/{task}', steps=n)


@scenario(quick=10, thorough=100, floor={'monitored': 300})
def monitored_policy(m):
    """a coax policy drives the task through the wrappers; actions stay in the space"""
    import haiku as hk
    rng = m.rng
    domain, task = SMALL[int(rng.integers(len(SMALL)))]
    env = coax.wrappers.TrainMonitor(make_dmc(domain, task, seed=int(rng.integers(100)), max_episode_steps=20))
    d = env.action_space.shape[0]

    def func(S, is_training):
        h = hk.Linear(2 * d)(S)
        return {'mu': 3 * h[:, :d], 'logvar': h[:, d:]}
    if not onp.all(onp.isfinite(env.action_space.high)):
        return
    pi = coax.Policy(func, env, random_seed=int(rng.integers(2 ** 31)))
    G = 0.
    for ep in range(2):
        s, _ = env.reset()
        G = 0.
        for t in range(100):
            a = pi(s)
            m.true(env.action_space.contains(a), 'policy-action-in-the-space', a)
            s, r, term, trunc, _ = env.step(a)
            G += r
            m.ev('monitored')
            if term or trunc:
                break
        m.eq(t, 19, 'step-limit')
        m.close(env.G, G, 'return-is-the-sum-of-rewards')
    m.nontrivial(domain, task)
    m.sample(task=f'{domain}/{task}', G=G)
