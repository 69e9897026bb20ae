"""A small distributed agent on the real ray runtime: prints what every part saw as json (used by C24, thorough)."""
import json
import os
import sys
import types

sys.path.insert(0, sys.argv[1])
import gymnasium as gym
import numpy as onp
import ray
import coax

nw, max_T, seed, tmp = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]


class TagEnv(gym.Env):
    observation_space = gym.spaces.Box(-1e9, 1e9, (2,), 'float64')
    action_space = gym.spaces.Discrete(5)

    def __init__(self, seed, base):
        self.g, self.n, self.base = onp.random.default_rng(seed), 0, base
        self.hist = []
        self.spec = types.SimpleNamespace(max_episode_steps=9, reward_threshold=None, id='x')

    def obs(self):
        self.n += 1
        self.s = onp.array([self.base + self.n, self.n], 'float64')
        return self.s

    def reset(self, **kw):
        return self.obs(), {}

    def step(self, a):
        r = float(onp.round(self.g.normal(), 4))
        self.hist.append((float(self.s[0]), r))
        return self.obs(), r, bool(self.g.random() < 0.2), False, {}


class W(coax.Worker):
    def __init__(self, base, param_store=None, buffer=None):
        self.raw = TagEnv(seed + base, base * 1e6)
        self.version, self.learned, self.pulled = 0, [], []
        super().__init__(gym.wrappers.TimeLimit(self.raw, max_episode_steps=9), param_store=param_store,
                         pi=lambda s, return_logp: (int(s[1]) % 5, -0.5), buffer=buffer, name=f'w{base}',
                         tracer=coax.reward_tracing.NStep(1, 0.9))

    def get_state(self):
        return self.version

    def set_state(self, v):
        self.version = v
        self.pulled.append(v)

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        self.tracer.add(s, a, r, done, logp)
        while self.tracer:
            self.buffer_add(self.tracer.pop())

    def learn(self, b):
        self.learned.append(self.version)
        self.version += 1
        return {'loss': 1.0}

    def report(self):
        out = {'hist': self.raw.hist, 'learned': self.learned, 'version': self.version, 'T': self.env.T}
        if self.buffer is not None:
            out['buffer'] = [(float(b.S[0, 0]), float(b.Rn[0])) for b in self.buffer]
        return out


os.environ.setdefault('RAY_DEDUP_LOGS', '0')
ray.init(num_cpus=nw + 2, include_dashboard=False, configure_logging=False, log_to_driver=False, _temp_dir=tmp,
         runtime_env={'env_vars': {'PYTHONPATH': sys.argv[1]}})
A = ray.remote(num_cpus=1)(W)
store = A.remote(0, None, coax.experience_replay.SimpleReplayBuffer(100000, random_seed=1))
ws = [A.remote(i + 1, store) for i in range(nw)]
learner = A.remote(90, store)
ray.get([learner.learn_loop.remote(max_T, 4)] + [w.rollout_loop.remote(max_T) for w in ws])
print('REPORT ' + json.dumps({'store': ray.get(store.report.remote()), 'learner': ray.get(learner.report.remote()),
                              'workers': ray.get([w.report.remote() for w in ws])}))
ray.shutdown()
