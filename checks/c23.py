"""C23: a saved object continues exactly where it was saved, and shares nothing with the original."""
import copy
import os
import shutil
import tempfile

import gymnasium as gym
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from vmon import scenario
from vmon import dtd, pg, td
from vmon.gen import pick
from vmon.models import (Act, DistModel, Obs, PiModel, QModel, SAModel, Transform, VModel, alike, batch, obs_outputs)


def through(rng, obj):
    """save and load, in memory or through a file"""
    if rng.random() < 0.5:
        return coax.utils.loads(coax.utils.dumps(obj))
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, *(['sub', 'dir'] if rng.random() < 0.5 else []), 'x.pkl.lz4')
        coax.utils.dump(obj, path)
        return coax.utils.load(path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tmap(f, *t):
    return jax.tree_util.tree_map(f, *t)


def snap(f):
    return tmap(onp.array, (f.params, f.function_state))


def noisy(rng, f):
    f.params = tmap(lambda p: p + jnp.asarray(rng.normal(size=p.shape), p.dtype) if hasattr(p, 'shape') else p,
                    f.params)


KINDS = ['v', 'q', 'sv', 'sq', 'pi', 'eps', 'boltz', 'model', 'smodel', 'reward', 'sreward', 'successor']


def function(rng, kind):
    """(object with params, query function name -> callable(obj, s, a))"""
    obs = Obs(rng, img=True, rich=kind not in ('model', 'smodel', 'successor'))
    act = Act(rng, 'disc' if kind in ('eps', 'boltz', 'successor') else None, rich=True)
    st = bool(rng.random() < 0.5)
    tr = Transform(rng) if rng.random() < 0.4 else None
    if kind == 'v':
        f = VModel(rng, obs, st, tr).f
        q = [lambda f, s, a: f(s)]
    elif kind == 'q':
        f = QModel(rng, obs, act, None, st, tr).f
        q = [lambda f, s, a: f(s, a)] + ([lambda f, s, a: f(s)] if act.kind == 'disc' else [])
    elif kind == 'sv':
        f = DistModel(rng, obs, None, None, st, tr, kind='cat').f
        q = [lambda f, s, a: f(s), lambda f, s, a: f.mean(s), lambda f, s, a: f.mode(s),
             lambda f, s, a: f.dist_params(s)]
    elif kind == 'sq':
        f = DistModel(rng, obs, act, None, st, tr).f
        q = [lambda f, s, a: f(s, a), lambda f, s, a: f.mean(s, a), lambda f, s, a: f.dist_params(s, a)]
    elif kind == 'pi':
        f = PiModel(rng, obs, act, st).f
        q = [lambda f, s, a: f(s, return_logp=True), lambda f, s, a: f.mode(s), lambda f, s, a: f.dist_params(s)]
    elif kind in ('eps', 'boltz'):
        base = QModel(rng, obs, act, None, st, tr).f
        f = coax.EpsilonGreedy(base, epsilon=0.5) if kind == 'eps' else \
            coax.BoltzmannPolicy(base, temperature=0.7)
        q = [lambda f, s, a: f(s, return_logp=True), lambda f, s, a: f.mode(s), lambda f, s, a: f.dist_params(s)]
    elif kind in ('model', 'smodel'):
        shapes, build = obs_outputs(obs, kind == 'smodel')
        cls = coax.StochasticTransitionModel if kind == 'smodel' else coax.TransitionModel
        f = SAModel(rng, cls, obs, act, shapes, build, stateful=st).f
        q = [lambda f, s, a: f(s, a)] + ([lambda f, s, a: f.mean(s, a)] if kind == 'smodel' else [])
    elif kind == 'reward':
        f = SAModel(rng, coax.RewardFunction, obs, act, {'out': ()}, lambda o: o['out'], stateful=st).f
        q = [lambda f, s, a: f(s, a)]
    elif kind == 'sreward':
        f = SAModel(rng, coax.StochasticRewardFunction, obs, act, {'logits': (4,)},
                    lambda o: {'logits': o['logits']}, stateful=st, value_range=(-3., 2.), num_bins=4).f
        q = [lambda f, s, a: f(s, a), lambda f, s, a: f.mean(s, a)]
    else:
        shapes, build = obs_outputs(obs, False)
        v = VModel(rng, obs, st)
        p = SAModel(rng, coax.TransitionModel, obs, act, shapes, build, pre='default')
        r = SAModel(rng, coax.RewardFunction, obs, act, {'out': ()}, lambda o: o['out'], pre='default')
        f = coax.SuccessorStateQ(v.f, p.f, r.f, gamma=0.8)
        q = [lambda f, s, a: f(s, a), lambda f, s, a: f(s)]
    return f, q, obs, act, st


@scenario(quick=48, thorough=1200, floor={'function-queries': 250})
def functions(m):
    rng = m.rng
    kind = KINDS[m.index % len(KINDS)]
    f, qs, obs, act, st = function(rng, kind)
    warm = rng.random() < 0.5
    if warm:
        qs[0](f, obs.sample(rng), act.sample(rng))        # compiled and random state advanced
    g = through(rng, f)
    m.true(type(g) is type(f), 'same-type')
    if kind != 'successor':
        m.tree_eq(g.params, f.params, 'parameters-survive')
        m.tree_eq(g.function_state, f.function_state, 'state-survives')
    m.log(kind, obs.kind, act.kind, st, warm)

    def agree(rule, a_, b_):
        for _ in range(3):
            s, a = obs.sample(rng), act.sample(rng)
            for q in qs:
                m.tree_close(q(a_, s, a), q(b_, s, a), rule, kind, rtol=1e-5, atol=1e-6)
                m.ev('function-queries')

    agree('loaded-function-agrees', g, f)
    # private life: the loaded function follows its own parameters only
    if kind != 'successor':
        before = snap(f)
        noisy(rng, g)
        m.tree_eq(snap(f), before, 'original-keeps-its-parameters')
        f.params = tmap(lambda p: p, g.params)
        agree('loaded-function-follows-its-parameters', g, f)
    else:
        noisy(rng, g.v)
        f.v.params = g.v.params
        agree('loaded-function-follows-its-parameters', g, f)
    if kind == 'eps':
        g.epsilon = f.epsilon = 0.05
        agree('loaded-policy-follows-its-hyperparameters', g, f)
    m.nontrivial(kind, obs.kind, act.kind, st, warm)
    m.sample(kind=kind)


def optimizer(rng):
    lr = float(rng.uniform(0.01, 0.1))
    return {'sgd': optax.sgd(lr), 'momentum': optax.sgd(lr, momentum=0.9), 'adam': optax.adam(lr)}[
        pick(rng, ['sgd', 'momentum', 'adam'])]


@scenario(quick=24, thorough=600, floor={'restarts': 24, 'steps-after-restart': 60})
def checkpoint_restart(m):
    """training interrupted by save+load continues as if uninterrupted"""
    rng = m.rng
    opt = optimizer(rng)
    which = ['td', 'dtd', 'pg'][m.index % 3]
    su = {'td': td.Setup, 'dtd': dtd.DSetup}[which](rng, optimizer=opt) if which != 'pg' else \
        pg.PGSetup(rng, optimizer=opt)
    if which == 'pg':
        sys = {'u': su.po, 'main': su.pi.f, 'fs': [q.f for q in su.qs]}
    else:
        sys = {'u': su.td, 'main': su.main.f, 'fs': [x.f for x in su.models()]}
    sys['buffer'] = coax.experience_replay.SimpleReplayBuffer(20, random_seed=int(rng.integers(999)))
    data = [batch(rng, su.obs, su.act, 4) for _ in range(6)]
    advs = [rng.normal(size=4).astype('float32') for _ in range(6)]
    m.log(which, su.describe())

    def step(sys, i):
        for t in data[i].to_singles():
            sys['buffer'].add(t)
        tb = sys['buffer'].sample(batch_size=4)
        tb.W = data[i].W
        try:
            met = sys['u'].update(tb, advs[i]) if which == 'pg' else sys['u'].update(tb)
        except RuntimeError:
            return tb, 'nan'
        for f in sys['fs']:
            if f is not sys['main'] and type(f) is type(sys['main']) and alike(f, sys['main']):
                f.soft_update(sys['main'], tau=0.3)
        return tb, met

    cut = int(rng.integers(0, 4))
    for i in range(cut):
        step(sys, i)
    other = through(rng, sys)
    u = other['u']
    main = u.pi if which == 'pg' else (u.v if hasattr(u, 'v') else u.q)
    m.true(main is other['main'], 'references-inside-one-object-are-preserved')
    m.true(main is not sys['main'], 'nothing-is-shared-with-the-original')
    m.tree_eq(u.optimizer_state, sys['u'].optimizer_state, 'optimizer-state-survives')
    frozen = snap(other['main'])
    for i in range(cut, 6):
        tb1, met1 = step(sys, i)
        m.true(i > cut or all(onp.array_equal(x, y) for x, y in zip(
            jax.tree_util.tree_leaves(frozen), jax.tree_util.tree_leaves(snap(other['main'])))),
            'training-the-original-leaves-the-loaded-one-alone')
        tb2, met2 = step(other, i)
        m.tree_eq(tb1.S, tb2.S, 'same-samples-after-restart')
        m.eq(tb1.Rn, tb2.Rn, 'same-samples-after-restart')
        m.tree_close(other['main'].params, sys['main'].params, 'same-trajectory-after-restart', su.describe(),
                     rtol=1e-4, atol=1e-5)
        m.tree_close(other['main'].function_state, sys['main'].function_state, 'same-state-after-restart')
        for f, g in zip(sys['fs'], other['fs']):
            m.tree_close(g.params, f.params, 'same-targets-after-restart', rtol=1e-4, atol=1e-5)
        if met1 != 'nan':
            m.true(set(met1) == set(met2), 'same-metrics-after-restart')
            for k in met1:
                m.close(met2[k], met1[k], 'same-metrics-after-restart', k, rtol=1e-3, atol=1e-4)
        m.ev('steps-after-restart')
    m.ev('restarts')
    m.nontrivial(which, su.describe(), cut)
    m.sample(config=su.describe(), cut=cut)


def rows(tb):
    return [onp.asarray(x) for x in jax.tree_util.tree_leaves(tb)]


def equal_batches(m, a, b, rule):
    x, y = rows(a), rows(b)
    m.true(len(x) == len(y) and all(onp.array_equal(p, q) for p, q in zip(x, y)), rule, x, y)


@scenario(quick=40, thorough=1500, floor={'buffer-events': 300, 'tracer-events': 300})
def experience(m):
    """buffers and tracers continue exactly where they were saved"""
    rng = m.rng
    obs, act = Obs(rng, img=True), Act(rng)
    tracer = pick(rng, [lambda: coax.reward_tracing.NStep(int(rng.integers(1, 5)), 0.9,
                                                          record_extra_info=bool(rng.random() < 0.5)),
                        lambda: coax.reward_tracing.MonteCarlo(0.9)])()
    cap = int(rng.integers(4, 12))
    buf = coax.experience_replay.SimpleReplayBuffer(cap, random_seed=3) if rng.random() < 0.5 else \
        coax.experience_replay.PrioritizedReplayBuffer(cap, alpha=0.8, beta=0.5, random_seed=3)
    prioritized = isinstance(buf, coax.experience_replay.PrioritizedReplayBuffer)
    systems = [(tracer, buf)]
    at = int(rng.integers(2, 30))
    t = 0
    for i in range(60):
        if i == at:
            systems.append(through(rng, systems[0]))
        done = bool(rng.random() < 0.15)
        x = (obs.sample(rng), act.sample(rng), float(rng.normal()), done, -float(rng.random()))
        outs = []
        new_td = None
        seed_td = rng.normal(size=3)
        for tr, bf in systems:
            tr.add(*x)
            popped = []
            while tr:
                b = tr.pop()
                popped.append(b)
                if prioritized:
                    bf.add(b, Adv=b.Rn)
                else:
                    bf.add(b)
            sample = bf.sample(batch_size=3) if len(bf) >= 3 else None
            if prioritized and sample is not None:
                bf.update(sample.idx, Adv=seed_td)
            outs.append((popped, sample, len(bf)))
        if len(outs) == 2:
            (p1, s1, n1), (p2, s2, n2) = outs
            m.eq(len(p1), len(p2), 'same-transitions-after-restore')
            for b1, b2 in zip(p1, p2):
                equal_batches(m, b1, b2, 'same-transitions-after-restore')
                m.ev('tracer-events')
            m.eq(n1, n2, 'same-size-after-restore')
            if s1 is not None:
                equal_batches(m, s1, s2, 'same-samples-after-restore')
                m.ev('buffer-events')
    # independence
    tr, bf = systems[1]
    n = len(systems[0][1])
    bf.clear()
    m.eq(len(systems[0][1]), n, 'nothing-is-shared-with-the-original')
    m.nontrivial(type(tracer).__name__, prioritized, cap, at)
    m.sample(tracer=type(tracer).__name__, prioritized=prioritized, at=at)


@scenario(quick=40, thorough=2000, floor={'objects': 40})
def plain_objects(m):
    rng = m.rng

    def value(depth):
        k = pick(rng, ['arr', 'jarr', 'int', 'str', 'none', 'float', 'list', 'dict', 'tuple'] if depth < 3 else
                 ['arr', 'int', 'str'])
        if k == 'arr':
            return rng.normal(size=tuple(rng.integers(0, 4, int(rng.integers(0, 3))))).astype(
                pick(rng, ['float32', 'float64', 'int32', 'bool']))
        if k == 'jarr':
            return jnp.asarray(rng.normal(size=3), 'float32')
        if k == 'list':
            return [value(depth + 1) for _ in range(int(rng.integers(0, 4)))]
        if k == 'tuple':
            return tuple(value(depth + 1) for _ in range(int(rng.integers(0, 4))))
        if k == 'dict':
            return {f'k{i}': value(depth + 1) for i in range(int(rng.integers(0, 4)))}
        return {'int': int(rng.integers(-9, 9)), 'str': 'x' * int(rng.integers(5)), 'none': None,
                'float': float(rng.normal())}[k]

    shared = [13]
    obj = {'v': [value(0) for _ in range(4)], 'a': shared, 'b': {'a': shared}, 'big': onp.arange(100000) % 7}
    new = through(rng, obj)

    def same(x, y):
        if isinstance(x, (onp.ndarray, jnp.ndarray)):
            return type(x) is type(y) and x.dtype == y.dtype and x.shape == y.shape and onp.array_equal(x, y)
        if isinstance(x, (list, tuple)):
            return type(x) is type(y) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
        if isinstance(x, dict):
            return type(x) is type(y) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
        return type(x) is type(y) and x == y

    m.true(same(obj, new), 'equal-object', obj['v'], new['v'])
    new['b']['a'].append(7)
    m.eq((new['a'], shared), ([13, 7], [13]), 'references-preserved-inside-and-cut-outside')
    # an existing file is replaced as a whole
    tmp = tempfile.mkdtemp()
    try:
        p = os.path.join(tmp, 'f')
        coax.utils.dump({'big': rng.normal(size=5000)}, p)
        coax.utils.dump(obj['v'], p)
        m.true(same(obj['v'], coax.utils.load(p)), 'overwritten-file')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m.ev('objects')
    m.nontrivial(len(obj['v']), str(jax.tree_util.tree_structure(obj['v']))[:40])


@scenario(quick=24, thorough=600, floor={'dists': 24})
def distributions(m):
    rng = m.rng
    kind = pick(rng, ['normal', 'squashed', 'cat', 'nested', 'interval'])
    if kind == 'nested':
        sp = gym.spaces.Dict({'a': gym.spaces.Box(-1, 2, (2,)), 'b': gym.spaces.Discrete(3)})
        d = coax.proba_dists.ProbaDist(sp)
    elif kind == 'cat':
        d = coax.proba_dists.CategoricalDist(gym.spaces.Discrete(4))
    elif kind == 'interval':
        d = coax.proba_dists.DiscretizedIntervalDist(gym.spaces.Box(-1, 2, ()), 5)
    else:
        cls = coax.proba_dists.NormalDist if kind == 'normal' else coax.proba_dists.SquashedNormalDist
        d = cls(gym.spaces.Box(-1, 2, (2,)))
    e = through(rng, d) if rng.random() < 0.7 else copy.deepcopy(d)
    p = tmap(lambda x: jnp.asarray(rng.normal(size=(3,) + x.shape[1:]), 'float32'), d.default_priors)
    k = jax.random.PRNGKey(int(rng.integers(999)))
    x, y = d.sample(p, k), e.sample(p, k)
    m.tree_close(y, x, 'same-samples', kind)
    m.close(e.log_proba(p, y), d.log_proba(p, x), 'same-log-proba', kind)
    m.tree_close(e.mean(p), d.mean(p), 'same-mean')
    m.tree_close(e.mode(p), d.mode(p), 'same-mode')
    m.tree_close(e.postprocess_variate(k, x, batch_mode=True), d.postprocess_variate(k, x, batch_mode=True),
                 'same-postprocessing')
    m.ev('dists')
    m.nontrivial(kind)


@scenario(quick=12, thorough=200, floor={'jitted': 24})
def jitted_functions(m):
    """jitted functions survive with their static arguments"""
    rng = m.rng
    c = float(rng.normal())

    def func(x, how, y, flag):
        z = x * c + (y if flag else -y)
        return z if how == 'id' else jnp.stack([z] * how) if isinstance(how, int) else jnp.tanh(z)

    f = coax.utils.jit(func, static_argnums=(1, 3))
    g = through(rng, f)
    h = through(rng, {'f': g, 'again': g, 'x': 1})
    m.true(h['f'] is h['again'], 'references-inside-one-object-are-preserved')
    x, y = rng.normal(size=3), rng.normal(size=3)
    for how in ('id', 'tanh', 2, 5):
        for flag in (True, False):
            want = f(x, how, y, flag)
            m.eq(onp.asarray(g(x, how, y, flag)), onp.asarray(want), 'jitted-function')
            m.eq(onp.asarray(h['f'](x, how, y, flag)), onp.asarray(want), 'jitted-function')
    m.eq(str(g.__signature__), str(f.__signature__), 'signature')
    m.ev('jitted', 2)
    m.nontrivial(round(c, 3))
    m.sample(c=c)
