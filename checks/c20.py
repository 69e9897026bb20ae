"""C20: the training monitor counts, accumulates and restores exactly what happened."""
import collections
import os
import shutil
import tempfile

import gymnasium as gym
import numpy as onp
import tensorboardX

import coax
from vmon import scenario
from vmon.gen import pick


class Scripted(gym.Env):
    """An environment that plays back generated rewards and ends, and records what it was asked."""
    def __init__(self, rng, discrete=True):
        self.observation_space = gym.spaces.Box(-1, 1, (2,))
        self.action_space = gym.spaces.Discrete(4) if discrete else gym.spaces.Box(-1, 1, (2,))
        self.g, self.calls = rng, []
        self.action_space.seed(int(rng.integers(2 ** 31)))

    def reset(self, **kw):
        self.calls.append(('reset', kw))
        return self.g.uniform(-1, 1, 2).astype('float32'), {'tag': len(self.calls)}

    def step(self, a):
        self.calls.append(('step', a))
        u = self.g.random()
        r = float(onp.round(self.g.normal(), 3))
        r = pick(self.g, [float, onp.float32, onp.float64, lambda x: int(round(x))])(r)
        self.last = (self.g.uniform(-1, 1, 2).astype('float32'), r, bool(u < 0.12), bool(0.1 <= u < 0.2),
                     {'tag': len(self.calls), 'TimeLimit.truncated': bool(0.15 <= u < 0.2)})
        return self.last


class Model:
    def __init__(self, smoothing):
        self.smoothing = smoothing
        self.zero()

    def zero(self):
        self.T = self.ep = self.t = 0
        self.G = self.avg_G = 0.0
        self.n = 0
        self.metrics = collections.OrderedDict()
        self.fired = {'T': collections.Counter(), 'ep': collections.Counter()}

    def clone(self):
        m = Model(self.smoothing)
        m.__dict__.update(self.__dict__)
        m.metrics = collections.OrderedDict((k, list(v)) for k, v in self.metrics.items())
        m.fired = {k: collections.Counter(v) for k, v in self.fired.items()}
        return m

    def reset(self):
        self.T, self.ep, self.t, self.G = self.T + 1, self.ep + 1, 0, 0.0
        self.metrics = collections.OrderedDict()

    def step(self, r, over):
        self.t, self.T, self.G = self.t + 1, self.T + 1, self.G + float(r)
        if over:
            self.n = min(self.smoothing, self.n + 1)
            self.avg_G += (self.G - self.avg_G) / self.n

    def due(self, kind, name, period):
        return (self.T if kind == 'T' else self.ep) >= (self.fired[kind][name] + 1) * period


def compare(m, env, mod, where):
    m.eq((env.T, env.ep, env.t), (mod.T, mod.ep, mod.t), 'counters', where)
    m.close(env.G, mod.G, 'return-is-the-sum-of-rewards', where, rtol=1e-5, atol=1e-4)
    m.close(env.avg_G, mod.avg_G, 'smoothed-return', where, rtol=1e-4, atol=1e-4)
    if mod.t:
        m.close(env.avg_r, mod.G / mod.t, 'average-reward', where, rtol=1e-4, atol=1e-4)
        m.true(env.dt_ms >= 0, 'step-duration')
    else:
        m.true(onp.isnan(env.avg_r) and onp.isnan(env.dt_ms), 'no-average-before-the-first-step')
    got = env.get_metrics()
    m.eq(sorted(got), sorted(mod.metrics), 'metrics-of-this-episode', where)
    for k, xs in mod.metrics.items():
        m.close(got[k], sum(xs) / len(xs), 'metrics-are-episode-averages', k, rtol=1e-4, atol=1e-5)
    m.ev('states-compared')


def metrics(rng):
    import jax.numpy as jnp
    names = ['A/loss', 'A/entropy', 'B/loss', 'x', 'throughput/t']
    conv = [float, onp.float32, lambda x: jnp.float32(x), lambda x: onp.array(x, 'float32'), int]
    return {n: pick(rng, conv)(rng.normal() * 3) for n in names if rng.random() < 0.5}


@scenario(quick=60, thorough=3000, floor={'states-compared': 2500, 'restores': 40, 'periods-fired': 100})
def history(m):
    rng = m.rng
    smoothing = int(pick(rng, [1, 3, 10, 100]))
    raw = Scripted(onp.random.default_rng(int(rng.integers(2 ** 31))), rng.random() < 0.7)
    env = coax.wrappers.TrainMonitor(raw, smoothing=smoothing)
    mod = Model(smoothing)
    saved = []
    tmp = tempfile.mkdtemp()
    periods = {'a': ('T', int(rng.integers(1, 9))), 'b': ('T', int(rng.integers(5, 30))),
               'c': ('ep', int(rng.integers(1, 4)))}
    started = False
    try:
        for step in range(70):
            u = rng.random()
            if not started or u < 0.06:
                kw = {'seed': int(rng.integers(100))} if rng.random() < 0.3 else {}
                s, info = env.reset(**kw)
                mod.reset()
                m.eq(raw.calls[-1], ('reset', kw), 'reset-is-passed-on')
                m.eq(info['tag'], len(raw.calls), 'reset-info-is-passed-on')
                started, op = True, 'reset'
            elif u < 0.62:
                a = raw.action_space.sample()
                T, ep, n = mod.T, mod.ep, len(raw.calls)
                s, r, done, trunc, info = env.step(a)
                m.true(len(raw.calls) == n + 1 and raw.calls[-1][0] == 'step' and onp.array_equal(raw.calls[-1][1], a),
                       'step-is-passed-on-once')
                m.true(onp.array_equal(s, raw.last[0]) and r == raw.last[1] and (done, trunc) == raw.last[2:4],
                       'step-returns-what-the-environment-returned')
                m.eq((info['tag'], info['monitor']), (len(raw.calls), {'T': T, 'ep': ep}), 'info')
                mod.step(r, done or trunc)
                if done or trunc:
                    started = rng.random() < 0.2
                op = 'step'
            elif u < 0.74:
                x = metrics(rng)
                env.record_metrics(x)
                for k, v in x.items():
                    mod.metrics.setdefault(k, []).append(float(v))
                op = 'metrics'
            elif u < 0.88:
                name = pick(rng, sorted(periods))
                kind, p = periods[name]
                got = env.period(name, **{('T_period' if kind == 'T' else 'ep_period'): p})
                want = mod.due(kind, name, p)
                m.true(bool(got) == want, 'period-fires-once-per-period',
                       f'{name} {kind}={getattr(mod, kind)} period={p} fired={mod.fired[kind][name]} got={got}')
                if want:
                    mod.fired[kind][name] += 1
                    m.ev('periods-fired')
                op = 'period'
            elif u < 0.93:
                how = pick(rng, ['dict', 'file'])
                if how == 'dict':
                    saved.append(('dict', env.get_counters(), mod.clone(), started))
                else:
                    path = os.path.join(tmp, 'sub', f'{step}.lz4')
                    env.save_counters(path)
                    saved.append(('file', path, mod.clone(), started))
                op = 'save'
            elif u < 0.98 and saved:
                how, x, was, st = saved[int(rng.integers(len(saved)))]
                fresh = rng.random() < 0.5
                if fresh:
                    env = coax.wrappers.TrainMonitor(raw, smoothing=smoothing)
                (env.set_counters if how == 'dict' else env.load_counters)(x)
                mod, started = was.clone(), st
                op = f'restore-{how}-{fresh}'
                m.ev('restores')
            elif u > 0.985:
                env.reset_global()
                mod.zero()
                started = False
                op = 'reset_global'
            else:
                continue
            m.log(step, op)
            m.nontrivial(op, smoothing, min(mod.ep, 8), min(mod.t, 6))
            compare(m, env, mod, op)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m.raises(TypeError, lambda: env.set_counters({'T': 1}), 'bad-counters-refused')
    m.raises(TypeError, lambda: env.record_metrics([1.0]), 'bad-metrics-refused')
    m.sample(T=mod.T, ep=mod.ep, avg_G=mod.avg_G)


@scenario(quick=24, thorough=900, floor={'pickled': 24})
def pickled(m):
    rng = m.rng
    raw = Scripted(onp.random.default_rng(int(rng.integers(2 ** 31))))
    env = coax.wrappers.TrainMonitor(raw)
    mod = Model(10)
    for _ in range(int(rng.integers(1, 5))):
        env.reset()
        mod.reset()
        for _ in range(int(rng.integers(1, 9))):
            _, r, d, tr, _ = env.step(1)
            mod.step(r, d or tr)
            x = metrics(rng)
            env.record_metrics(x)
            for k, v in x.items():
                mod.metrics.setdefault(k, []).append(float(v))
    twin = coax.utils.loads(coax.utils.dumps(env))
    compare(m, twin, mod, 'unpickled')
    was = mod.clone()
    env.reset()
    mod.reset()
    compare(m, twin, was, 'original-moved-on')
    compare(m, env, mod, 'original')
    m.ev('pickled')
    m.nontrivial(mod.ep, mod.T)


@scenario(quick=24, thorough=900, floor={'tensorboard-events': 200, 'histograms': 20, 'redirected': 5})
def tensorboard(m):
    """what reaches tensorboard, observed at SummaryWriter.add_scalar/add_histogram"""
    rng = m.rng
    events, hists = [], []
    W = tensorboardX.SummaryWriter
    orig = W.add_scalar, W.add_histogram

    def scalar(self, tag, scalar_value, global_step=None, *a, **k):
        events.append((self.logdir, tag, float(scalar_value), global_step))

    def hist(self, tag, values, global_step=None, *a, **k):
        bins = k.get('bins', a[0] if a else None)
        hists.append((tag, list(values), global_step, bins))

    tmp = tempfile.mkdtemp()
    W.add_scalar, W.add_histogram = scalar, hist
    try:
        raw = Scripted(onp.random.default_rng(int(rng.integers(2 ** 31))))
        write_all = bool(rng.random() < 0.5)
        env = coax.wrappers.TrainMonitor(raw, tensorboard_dir=os.path.join(tmp, 'one'),
                                         tensorboard_write_all=write_all)
        mod = Model(10)
        for ep in range(int(rng.integers(3, 7))):
            del events[:], hists[:]
            env.reset()
            if ep:
                got = {k: (v, st) for _, k, v, st in events}
                want = {'episode/episode': mod.ep, 'episode/return': mod.G, 'episode/steps': mod.t,
                        'episode/avg_reward': mod.G / mod.t if mod.t else onp.nan}
                if not write_all:
                    want.update({k: sum(v) / len(v) for k, v in mod.metrics.items()})
                m.true(len(events) == len(got), 'each-tag-written-once-per-episode', [e[1] for e in events])
                m.true(set(got) - {'episode/avg_step_duration_ms'} == set(want), 'episode-tags',
                       sorted(got), sorted(want))
                for k, v in want.items():
                    m.close(got[k][0], v, 'episode-scalar', k, rtol=1e-4, atol=1e-4)
                    m.eq(got[k][1], mod.T, 'global-step', k)
                    m.ev('tensorboard-events')
                if acts:
                    m.true(len(hists) == 1 and hists[0][0] == 'actions', 'one-action-histogram')
                    m.eq(sorted(hists[0][1]), sorted(acts), 'actions-of-this-episode')
                    m.eq(onp.histogram(hists[0][1], bins=hists[0][3])[0][:4].tolist(),
                         onp.bincount(acts, minlength=4).tolist(), 'one-bin-per-action')
                    m.ev('histograms')
                m.true(all(e[0].startswith(tmp) for e in events), 'writes-stay-in-the-given-directory')
            mod.reset()
            acts = []
            for _ in range(int(rng.integers(0, 9))):
                a = int(rng.integers(4))
                _, r, d, tr, _ = env.step(a)
                acts.append(a)
                mod.step(r, d or tr)
                x = metrics(rng)
                n = len(events)
                env.record_metrics(x)
                for k, v in x.items():
                    mod.metrics.setdefault(k, []).append(float(v))
                if write_all:
                    new = [(k, st) for _, k, v, st in events[n:]]
                    m.eq(new, [(k, mod.T) for k in x], 'every-metric-written-at-once')
                    m.ev('tensorboard-events', len(new))
                else:
                    m.eq(len(events), n, 'nothing-written-before-the-episode-ends')
            m.nontrivial(write_all, ep, mod.t)
        # restored counters restore the directory
        counters = env.get_counters()
        other = coax.wrappers.TrainMonitor(
            raw, tensorboard_dir=os.path.join(tmp, 'two') if rng.random() < 0.5 else None)
        other.set_counters(counters)
        del events[:], hists[:]
        other.reset()
        m.true(events and all(e[0].startswith(os.path.join(tmp, 'one')) for e in events),
               'restored-directory', events[:2])
        m.ev('redirected')
    finally:
        W.add_scalar, W.add_histogram = orig
        shutil.rmtree(tmp, ignore_errors=True)
    m.sample(write_all=write_all, episodes=mod.ep)


@scenario(quick=12, thorough=400, floor={'period-runs': 12})
def period_at_every_step(m):
    """asked at every step, a period of k fires exactly when the counter reaches a multiple of k"""
    rng = m.rng
    env = coax.wrappers.TrainMonitor(Scripted(onp.random.default_rng(int(rng.integers(2 ** 31)))))
    k, e = int(rng.integers(1, 12)), int(rng.integers(1, 5))
    fired, eps = [], []
    over = True
    for _ in range(150):
        if over:
            env.reset()
        else:
            _, _, d, tr, _ = env.step(0)
        over = (not over) and (d or tr)
        if env.period('t', T_period=k):
            fired.append(env.T)
        if env.period('e', ep_period=e):
            eps.append(env.ep)
    m.eq(fired, [t for t in range(1, env.T + 1) if t % k == 0], 'fires-at-every-multiple', f'T_period={k}')
    m.eq(eps, [t for t in range(1, env.ep + 1) if t % e == 0], 'fires-at-every-multiple', f'ep_period={e}')
    m.ev('period-runs')
    m.nontrivial(k, e)
    m.sample(k=k, fired=fired[:10])


@scenario(quick=4, thorough=60, floor={'long-steps': 8000})
def long_episodes(m):
    """episodes beyond every internal buffer: averages stay exact, the action sample stays uniform"""
    rng = m.rng
    T = int(rng.integers(2500, 5000))

    class Long(gym.Env):
        observation_space = gym.spaces.Discrete(2)
        action_space = gym.spaces.Box(0, 1e6, (), dtype='float64')

        def reset(self, **kw):
            self.t = 0
            return 0, {}

        def step(self, a):
            self.t += 1
            return 0, float(R[self.t - 1]), self.t == T, False, {}

    hists = []
    W = tensorboardX.SummaryWriter
    orig = W.add_scalar, W.add_histogram
    tmp = tempfile.mkdtemp()
    W.add_scalar = lambda self, *a, **k: None
    W.add_histogram = lambda self, tag, values, **k: hists.append(list(values))
    try:
        env = coax.wrappers.TrainMonitor(Long(), tensorboard_dir=os.path.join(tmp, 'x'))
        T0 = 0
        for ep in range(2):
            R = rng.normal(size=T)
            vals = rng.normal(size=T)
            env.reset()
            fired, before = 0, T0 // 7
            T0 += 1
            for t in range(T):
                env.step(onp.float64(t))
                env.record_metrics({'a/loss': vals[t], 'b': 2. * t} if t % 3 else {'a/loss': vals[t]})
                T0 += 1
                fired += bool(env.period('p', T_period=7))
                m.ev('long-steps')
            m.eq((env.T, env.t, env.ep), (T0, T, ep + 1), 'counters')
            m.eq(fired, T0 // 7 - before, 'period-fires-once-per-multiple')
            m.close(env.G, R.sum(), 'return', rtol=1e-9, atol=1e-6)
            m.close(env.get_metrics()['a/loss'], vals.mean(), 'metric-average', rtol=1e-6, atol=1e-6)
            m.close(env.get_metrics()['b'], onp.mean([2. * t for t in range(T) if t % 3]), 'metric-average', rtol=1e-6)
        env.reset()
        for h in hists:
            h = onp.array(h)
            m.true(len(set(h.tolist())) == len(h) and set(h.tolist()) <= set(range(T)), 'a-sample-of-the-actions')
            m.true(abs(h.mean() - (T - 1) / 2) < 6.5 * T / onp.sqrt(12 * len(h)), 'sample-is-uniform-over-the-episode',
                   h.mean(), T)
        m.eq(len(hists), 2, 'one-action-histogram')
    finally:
        W.add_scalar, W.add_histogram = orig
        shutil.rmtree(tmp, ignore_errors=True)
    m.nontrivial(T)
    m.sample(T=T)
