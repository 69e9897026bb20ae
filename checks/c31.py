"""C31: a function approximator that does not fit its spaces is refused when it is built; one that fits is accepted."""
import types

import gymnasium as gym
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from vmon import scenario, spaces
from vmon.gen import pick

tmap, leaves, struct = jax.tree_util.tree_map, jax.tree_util.tree_leaves, jax.tree_util.tree_structure


class Shape(tuple):
    """a leaf of an expected output: the shape without the batch axis"""


def tshapes(f, t):
    return tmap(f, t, is_leaf=lambda x: isinstance(x, Shape))


def dist_shapes(sp):
    if isinstance(sp, gym.spaces.Discrete):
        return {'logits': Shape((int(sp.n),))}
    if isinstance(sp, gym.spaces.Box):
        return {'mu': Shape(sp.shape), 'logvar': Shape(sp.shape)}
    if isinstance(sp, gym.spaces.MultiDiscrete):
        return tuple({'logits': Shape((int(n),))} for n in sp.nvec)
    if isinstance(sp, gym.spaces.MultiBinary):
        return tuple({'logits': Shape((2,))} for _ in range(int(sp.n)))
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(dist_shapes(s) for s in sp.spaces)
    return {k: dist_shapes(s) for k, s in sp.spaces.items()}


def feature_shapes(sp):
    if isinstance(sp, gym.spaces.Discrete):
        return Shape((int(sp.n),))
    if isinstance(sp, gym.spaces.Box):
        return Shape(sp.shape)
    if isinstance(sp, gym.spaces.MultiDiscrete):
        return [Shape((int(n),)) for n in sp.nvec]
    if isinstance(sp, gym.spaces.MultiBinary):
        return Shape((int(sp.n),))
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(feature_shapes(s) for s in sp.spaces)
    return {k: feature_shapes(s) for k, s in sp.spaces.items()}


def small(rng, depth=1):
    while True:
        sp = spaces.space(rng, depth=depth, ints=False, unbounded=False)
        if not isinstance(sp, gym.spaces.Box) or sp.dtype == onp.float32:
            return sp


def env(obs, act):
    return types.SimpleNamespace(observation_space=obs, action_space=act, reward_range=(-2.0, 3.0))


KINDS = ['V', 'Q', 'RewardFunction', 'Policy', 'StochasticV', 'StochasticQ', 'StochasticReward', 'Quantile',
         'TransitionModel', 'StochasticTransitionModel']


class Spec:
    """what a function of the given kind has to look like, worked out from the spaces alone"""
    def __init__(self, rng, kind):
        self.kind = kind
        self.obs = small(rng)
        if rng.random() < 0.5:
            self.act = gym.spaces.Discrete(int(rng.integers(2, 6)))
        else:
            self.act = small(rng)
        self.discrete = isinstance(self.act, gym.spaces.Discrete)
        self.bins = int(rng.integers(2, 9))
        b, none = self.bins, Shape(())
        self.out = {'V': none, 'Q': none, 'RewardFunction': none, 'StochasticV': {'logits': Shape((b,))},
                    'StochasticQ': {'logits': Shape((b,))}, 'StochasticReward': {'logits': Shape((b,))},
                    'Quantile': {'values': Shape((b,)), 'quantile_fractions': Shape((b,))}}.get(kind)
        if kind == 'Policy':
            self.out = dist_shapes(self.act)
        elif kind == 'StochasticTransitionModel':
            self.out = dist_shapes(self.obs)
        elif kind == 'TransitionModel':
            self.out = dist_feature_shapes(self.obs)
        self.takes_actions = kind not in ('V', 'Policy', 'StochasticV')
        self.type2 = self.takes_actions and self.discrete and bool(rng.random() < 0.5)
        self.cls = {'StochasticReward': coax.StochasticRewardFunction, 'Quantile': coax.StochasticQ}.get(kind) \
            or getattr(coax, kind)
        if kind == 'TransitionModel':     # whether a list or a tuple is asked for is what example_data says
            like = self.cls.example_data(env(self.obs, self.act)).type1.output
            self.out = jax.tree_util.tree_unflatten(
                struct(like), jax.tree_util.tree_leaves(self.out, is_leaf=lambda x: isinstance(x, Shape)))
        self.kw = {}
        if kind in ('StochasticV', 'StochasticQ', 'StochasticReward'):
            self.kw = dict(value_range=(-1.0, 2.0), num_bins=b)
        elif kind == 'Quantile':
            self.kw = dict(num_bins=b)
        self.args = ('S', 'is_training') if self.type2 or not self.takes_actions else ('S', 'A', 'is_training')

    def describe(self):
        return (self.kind, type(self.obs).__name__, type(self.act).__name__, self.type2)

    def body(self, out=None, wrap=lambda x: x, dtype='float32', lead=None):
        """the implementation: a parameter per leaf, broadcast over the batch"""
        out = self.out if out is None else out
        mid = (int(self.act.n),) if self.type2 else ()

        def run(S):
            n = leaves(S)[0].shape[0] if lead is None else lead
            i = iter(range(1000))

            def leaf(shape):
                w = hk.get_parameter(f'w{next(i)}', mid + tuple(shape), init=hk.initializers.RandomNormal())
                return jnp.broadcast_to(w, (n,) + mid + tuple(shape)).astype(dtype)
            return wrap(tshapes(leaf, out))
        return run

    def func(self, run, args=None):
        args = self.args if args is None else args
        ns = {'run': run}
        exec(f"def func({', '.join(args)}):\n    return run({args[0]})", ns)
        return ns['func']

    def build(self, func, obs=None, act=None, **kw):
        return self.cls(func, env(self.obs if obs is None else obs, self.act if act is None else act),
                        random_seed=3, **{**self.kw, **kw})


def wrong_outputs(rng, sp):
    """outputs that differ from the right one in a single respect"""
    flat, tree = jax.tree_util.tree_flatten(sp.out, is_leaf=lambda x: isinstance(x, Shape))
    out = []
    i = int(rng.integers(len(flat)))

    def with_leaf(shape):
        return jax.tree_util.tree_unflatten(tree, flat[:i] + [Shape(shape)] + flat[i + 1:])
    s = tuple(flat[i])
    out.append(('one-axis-too-many', sp.body(with_leaf(s + (1,)))))
    out.append(('one-leading-axis-too-many', sp.body(with_leaf((1,) + s))))
    if s:
        k = int(rng.integers(len(s)))
        out.append(('one-element-too-many', sp.body(with_leaf(s[:k] + (s[k] + 1,) + s[k + 1:]))))
        if s[k] != 1:
            out.append(('one-element', sp.body(with_leaf(s[:k] + (1,) + s[k + 1:]))))
        out.append(('one-axis-too-few', sp.body(with_leaf(s[1:]))))
    if len(s) == 2 and s[0] != s[1]:
        out.append(('transposed', sp.body(with_leaf(s[::-1]))))
    if sp.type2:
        n = int(sp.act.n)
        out.append(('one-action-too-many', lambda S: tshapes(
            lambda sh: jnp.zeros((leaves(S)[0].shape[0], n + 1) + tuple(sh)), sp.out)))
        out.append(('no-action-axis', lambda S: tshapes(
            lambda sh: jnp.zeros((leaves(S)[0].shape[0],) + tuple(sh)), sp.out)))
    out.append(('batch-twice', sp.body(lead=2)))
    out.append(('in-a-tuple', sp.body(wrap=lambda x: (x,))))
    out.append(('in-a-dict', sp.body(wrap=lambda x: {'x': x})))
    if isinstance(sp.out, dict):
        key = pick(rng, sorted(sp.out))
        out.append(('missing-key', sp.body({k: v for k, v in sp.out.items() if k != key})))
        out.append(('renamed-key', sp.body({('other' if k == key else k): v for k, v in sp.out.items()})))
        out.append(('extra-key', sp.body({**sp.out, 'zzz': Shape((1,))})))
    elif isinstance(sp.out, (tuple, list)) and not isinstance(sp.out, Shape):
        out.append(('missing-entry', sp.body(type(sp.out)(list(sp.out)[:-1]))))
        out.append(('extra-entry', sp.body(type(sp.out)(list(sp.out) + [sp.out[-1]]))))
    if sp.kind in ('V', 'Q', 'RewardFunction'):
        out.append(('integers', sp.body(dtype='int32')))
        out.append(('booleans', sp.body(dtype='bool')))
    return out


def wrong_signatures(rng, sp):
    right = {('S', 'is_training')} | ({('S', 'A', 'is_training')} if sp.takes_actions else set())
    cand = [('S',), ('S', 'A'), ('s', 'is_training'), ('S', 'training'), ('is_training', 'S'), ('A', 'is_training'),
            ('S', 'A', 'is_training', 'rng'), ('A', 'S', 'is_training'), ('S', 'is_training', 'A'), ('S', 'a', 'is_training'),
            ('S', 'A', 'is_training'), ('S', 'is_training'), ('S', '*args'), ('S', 'is_training', '**kw')]
    if sp.takes_actions and not sp.discrete:
        right = {('S', 'A', 'is_training')}
    cand = [c for c in cand if c not in right]
    return [cand[i] for i in rng.permutation(len(cand))[:4]]


@scenario(quick=90, thorough=3000, floor={'accepted': 90, 'refused-outputs': 350, 'refused-signatures': 250})
def functions(m):
    rng = m.rng
    sp = Spec(rng, KINDS[m.index % len(KINDS)])
    m.log(sp.describe())
    f = sp.build(sp.func(sp.body()))
    m.ev('accepted')
    m.true(isinstance(f, sp.cls), 'fitting-function-is-accepted', sp.describe())
    if sp.takes_actions:
        m.eq(f.modeltype, 2 if sp.type2 else 1, 'modeltype-follows-the-signature', sp.describe())
    if 'num_bins' in sp.kw:
        m.eq(int(f.num_bins), sp.kw['num_bins'], 'number-of-bins', sp.describe())
    p0 = tmap(onp.array, f.params)
    for name, run in wrong_outputs(rng, sp):
        m.raises(TypeError, lambda: sp.build(sp.func(run)), 'bad-output-is-refused', name, sp.describe())
        m.ev('refused-outputs')
        m.nontrivial(sp.kind, sp.type2, name)
    for args in wrong_signatures(rng, sp):
        m.raises(TypeError, lambda: sp.build(sp.func(sp.body(), args)), 'bad-signature-is-refused', args, sp.describe())
        m.ev('refused-signatures')
    m.raises(TypeError, lambda: sp.build(sp.func(sp.body()), obs='not a space'), 'bad-observation-space-is-refused')
    if sp.takes_actions:
        m.raises(TypeError, lambda: sp.build(sp.func(sp.body()), act=3), 'bad-action-space-is-refused')
    # other parameters of another structure
    bad = pick(rng, [lambda p: {}, lambda p: {**p, 'more': {'w': jnp.zeros(1)}}, lambda p: leaves(p), lambda p: None])
    m.raises(TypeError, lambda: setattr(f, 'params', bad(dict(f.params))), 'bad-params-are-refused')
    m.raises(TypeError, lambda: setattr(f, 'function_state', {'a': {'b': jnp.zeros(1)}}), 'bad-state-is-refused')
    m.tree_eq(tmap(onp.array, f.params), p0, 'refusal-has-no-effect')
    m.nontrivial(sp.describe())
    m.sample(config=sp.describe(), args=sp.args)


def data_kwargs(rng, sp):
    kw = {}
    if sp.kind in ('StochasticV', 'StochasticQ', 'StochasticReward'):
        kw = dict(value_range=(-1.0, 2.0), num_bins=sp.bins)
    return kw


@scenario(quick=80, thorough=3000, floor={'examples': 80, 'example-inputs-run': 60})
def example_data(m):
    """the example data of a class has the batch size asked for and fits the spaces and the class"""
    rng = m.rng
    kinds = [k for k in KINDS if k != 'Quantile']
    sp = Spec(rng, kinds[m.index % len(kinds)])
    size, seed = int(rng.integers(1, 6)), int(rng.integers(1000))
    kw = data_kwargs(rng, sp)

    def get():
        return sp.cls.example_data(env(sp.obs, sp.act), batch_size=size, random_seed=seed, **kw)
    d = get()
    m.log(sp.describe(), size)
    if sp.takes_actions:
        m.true((d.type2 is not None) == sp.discrete, 'type-2-iff-discrete-actions', sp.describe())
        parts = [(1, d.type1)] + ([(2, d.type2)] if sp.discrete else [])
    else:
        parts = [(0, d)]
    features = dist_feature_shapes if sp.kind.endswith('TransitionModel') else feature_shapes
    for t, ex in parts:
        want_args = ('S', 'A', 'is_training') if t == 1 else ('S', 'is_training')
        m.eq(tuple(ex.inputs.args._fields), want_args, 'example-arguments')
        m.eq(tuple(ex.inputs.static_argnums), (len(want_args) - 1,), 'static-argument')
        mid = (int(sp.act.n),) if t == 2 else ()
        match(m, ex.output, sp.out, (size,) + mid, 'example-output', sp.describe(), t)
        match(m, ex.inputs.args.S, features(sp.obs), (size,), 'example-observations', sp.describe(), t)
        if t == 1:
            match(m, ex.inputs.args.A, feature_shapes(sp.act), (size,), 'example-actions', sp.describe(), t)
        if not sp.kind.endswith('TransitionModel'):
            inside(m, sp.obs, ex.inputs.args.S)
        if t == 1:
            inside(m, sp.act, ex.inputs.args.A)
        m.ev('examples')
        # the example inputs are what the function is later called with
        if (t == 2) == sp.type2:
            f = sp.build(sp.func(sp.body()))
            out, _ = f.function(f.params, f.function_state, f.rng, *ex.inputs.args)
            m.true(struct(out) == struct(ex.output)
                   and all(a.shape == b.shape for a, b in zip(leaves(out), leaves(ex.output))), 'example-inputs-fit',
                   sp.describe())
            m.ev('example-inputs-run')
    m.tree_eq(tmap(onp.array, leaves(get())), tmap(onp.array, leaves(d)), 'equal-seeds-equal-examples')
    m.raises(TypeError, lambda: sp.cls.example_data(env('no space', sp.act), **kw), 'bad-space-is-refused')
    if size > 1:     # the rows are drawn independently
        big = [x for x in leaves(parts[0][1].output) if onp.asarray(x)[0].size]
        m.true(all(len(onp.unique(onp.asarray(x).reshape(size, -1), axis=0)) == size for x in big), 'rows-differ')
    m.nontrivial(sp.describe(), size)


def dist_feature_shapes(sp):
    """what a distribution's preprocessing of an element looks like"""
    if isinstance(sp, gym.spaces.MultiDiscrete):
        return [Shape((int(n),)) for n in sp.nvec]
    if isinstance(sp, gym.spaces.MultiBinary):
        return [Shape((2,)) for _ in range(int(sp.n))]
    if isinstance(sp, gym.spaces.Tuple):
        return [dist_feature_shapes(s) for s in sp.spaces]
    if isinstance(sp, gym.spaces.Dict):
        return {k: dist_feature_shapes(s) for k, s in sp.spaces.items()}
    return feature_shapes(sp)


def match(m, got, want, lead, rule, *detail):
    w = jax.tree_util.tree_leaves(want, is_leaf=lambda x: isinstance(x, Shape))
    g = leaves(got)
    m.eq([tuple(x.shape) for x in g], [tuple(lead) + tuple(s) for s in w], rule, *detail)


def inside(m, sp, X):
    """features of elements of the space"""
    if isinstance(sp, gym.spaces.Box):
        X = onp.asarray(X)
        tol = 1e-5 * (1 + onp.abs(sp.low) + onp.abs(sp.high))        # features are single precision
        m.true(onp.all((X >= sp.low - tol) & (X <= sp.high + tol)), 'example-inside-the-box', X, sp)
    elif isinstance(sp, gym.spaces.Discrete):
        X = onp.asarray(X)
        m.true(onp.all((X == 0) | (X == 1)) and onp.all(X.sum(1) == 1), 'example-is-one-hot', X)
    elif isinstance(sp, gym.spaces.Tuple):
        for s, x in zip(sp.spaces, X):
            inside(m, s, x)
    elif isinstance(sp, gym.spaces.Dict):
        for k, s in sp.spaces.items():
            inside(m, s, X[k])


# ---------------------------------------------------------------- assembling algorithms
def parts(rng, discrete):
    sp = {}
    obs = gym.spaces.Box(-1, 1, (2,), dtype='float32')
    act = gym.spaces.Discrete(3) if discrete else gym.spaces.Box(-1, 1, (2,), dtype='float32')
    for kind in KINDS:
        s = Spec(rng, kind)
        s.obs, s.act, s.discrete = obs, act, discrete
        s.type2 = False
        s.args = ('S', 'A', 'is_training') if s.takes_actions else ('S', 'is_training')
        if kind == 'Policy':
            s.out = dist_shapes(act)
        elif kind == 'StochasticTransitionModel':
            s.out = dist_shapes(obs)
        elif kind == 'TransitionModel':
            s.out = dist_feature_shapes(obs)
        sp[kind] = s.build(s.func(s.body()))
        if discrete and s.takes_actions:
            s.type2, s.args = True, ('S', 'is_training')
            sp[kind + '2'] = s.build(s.func(s.body()))
    if discrete:
        sp['EpsilonGreedy'] = coax.EpsilonGreedy(sp['Q'])
        sp['BoltzmannPolicy'] = coax.BoltzmannPolicy(sp['Q2'])
    return sp


@scenario(quick=24, thorough=300, floor={'accepted': 150, 'refused': 400})
def algorithms(m):
    """objects of the wrong kind are refused when an algorithm is assembled"""
    rng = m.rng
    discrete = bool(m.index % 2)
    p = parts(rng, discrete)
    td, po, reg = coax.td_learning, coax.policy_objectives, coax.regularizers
    junk = [None, 0, 'q', lambda S: S, object()]

    def ok(f, *what):
        f()
        m.ev('accepted')
        m.nontrivial('accepted', discrete, *what)

    def no(exc, f, *what):
        m.raises(exc, f, 'wrong-kind-is-refused', *what)
        m.ev('refused')
        m.nontrivial('refused', discrete, *what)
    isv = ['V', 'StochasticV']
    isq = [k for k in p if k.rstrip('2') in ('Q', 'StochasticQ', 'Quantile')]
    nonq = [k for k in p if k.rstrip('2') in ('V', 'StochasticV', 'Policy', 'TransitionModel', 'StochasticTransitionModel',
                                              'EpsilonGreedy', 'BoltzmannPolicy')]
    for k in p:
        if k in isv:
            ok(lambda: td.SimpleTD(p[k], p[k].copy()), 'SimpleTD', k)
        else:
            no(TypeError, lambda: td.SimpleTD(p[k]), 'SimpleTD', k)
            no(TypeError, lambda: td.SimpleTD(p['V'], p[k]), 'SimpleTD target', k)
    for x in junk:
        no(TypeError, lambda: td.SimpleTD(x), 'SimpleTD', repr(type(x)))
        no(TypeError, lambda: td.Sarsa(x), 'Sarsa', repr(type(x)))
        if x is not None:
            no(TypeError, lambda: td.SimpleTD(p['V'], x), 'SimpleTD target', repr(type(x)))
            no(TypeError, lambda: td.Sarsa(p['Q'], x), 'Sarsa target', repr(type(x)))
            no(TypeError, lambda: td.QLearning(p['Q'], p['Policy'], x), 'QLearning target', repr(type(x)))
        no(TypeError, lambda: po.VanillaPG(x), 'VanillaPG', repr(type(x)))
        no(TypeError, lambda: reg.EntropyRegularizer(x), 'EntropyRegularizer', repr(type(x)))
        no(TypeError, lambda: coax.model_updaters.ModelUpdater(x), 'ModelUpdater', repr(type(x)))
        if x is not None:
            no(TypeError, lambda: po.VanillaPG(p['Policy'], regularizer=x), 'VanillaPG regularizer', repr(type(x)))
            no(TypeError, lambda: td.SimpleTD(p['V'], policy_regularizer=x), 'SimpleTD regularizer', repr(type(x)))
    for k in isq:
        ok(lambda: td.Sarsa(p[k], p[k].copy()), 'Sarsa', k)
        if discrete:
            ok(lambda: td.QLearning(p[k]), 'QLearning', k)
        else:
            ok(lambda: td.QLearning(p[k], p['Policy']), 'QLearning', k)
            no(TypeError, lambda: td.QLearning(p[k]), 'QLearning without a policy', k)
            no(TypeError, lambda: td.DoubleQLearning(p[k]), 'DoubleQLearning without a policy', k)
            no(Exception, lambda: td.ExpectedSarsa(p[k], p['Policy']), 'ExpectedSarsa with continuous actions', k)
    for k in nonq:
        no(TypeError, lambda: td.Sarsa(p[k]), 'Sarsa', k)
        no(TypeError, lambda: td.Sarsa(p['Q'], p[k]), 'Sarsa target', k)
        no(TypeError, lambda: td.QLearning(p[k], p['Policy']), 'QLearning', k)
        no(TypeError, lambda: td.DoubleQLearning(p[k], p['Policy']), 'DoubleQLearning', k)
        no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']] if not discrete else None,
                                                        [p['Q'], p[k]]), 'ClippedDoubleQLearning', k)
        no(TypeError, lambda: po.DeterministicPG(p['Policy'], p[k]), 'DeterministicPG', k)
        no(TypeError, lambda: po.SoftPG(p['Policy'], [p[k]]), 'SoftPG', k)
        no(TypeError, lambda: po.SoftPG(p['Policy'], [p['Q'], p[k]]), 'SoftPG', 'second', k)
    if discrete:
        no(TypeError, lambda: td.ExpectedSarsa(p['Q'], None), 'ExpectedSarsa without a policy')
        ok(lambda: td.ExpectedSarsa(p['Q'], p['Policy']), 'ExpectedSarsa')
        ok(lambda: td.SoftQLearning(p['Q'], temperature=0.1), 'SoftQLearning')
        no(NotImplementedError, lambda: td.SoftQLearning(p['StochasticQ'], temperature=0.1), 'SoftQLearning')
        no(TypeError, lambda: po.DeterministicPG(p['Policy'], p['Q2']), 'DeterministicPG with a type-2 q')
        for k in ('Q', 'Q2'):
            ok(lambda: td.ClippedDoubleQLearning(p[k], q_targ_list=[p[k], p[k].copy()]), 'ClippedDoubleQLearning')
        no(ValueError, lambda: td.ClippedDoubleQLearning(p['Q'], q_targ_list=[p['Q']]), 'a single target')
        no(TypeError, lambda: coax.EpsilonGreedy(p['V']), 'EpsilonGreedy of v')
        no(TypeError, lambda: coax.BoltzmannPolicy(p['Policy']), 'BoltzmannPolicy of pi')
    else:
        no(NotImplementedError, lambda: td.SoftQLearning(p['Q'], temperature=0.1), 'SoftQLearning')
        no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], None, [p['Q'], p['Q']]), 'no policies')
        no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], p['Policy'], [p['Q'], p['Q']]), 'not a list of policies')
        no(ValueError, lambda: td.ClippedDoubleQLearning(p['Q'], [], [p['Q'], p['Q']]), 'empty list of policies')
        no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], [p['Q']], [p['Q'], p['Q']]), 'not policies')
        no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy'], p['V']], [p['Q']]), 'a second non-policy')
        no(ValueError, lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']], [p['Q']]), 'a single pair')
        ok(lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']] * 2, [p['Q']]), 'two policies')
        ok(lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']], [p['Q']] * 2), 'two targets')
        ok(lambda: po.DeterministicPG(p['Policy'], p['Q']), 'DeterministicPG')
        no(TypeError, lambda: coax.EpsilonGreedy(p['Q']), 'EpsilonGreedy of continuous actions')
        no(TypeError, lambda: coax.BoltzmannPolicy(p['Q']), 'BoltzmannPolicy of continuous actions')
    no((TypeError, ValueError), lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']] * 2, []), 'no targets')
    no(TypeError, lambda: td.ClippedDoubleQLearning(p['Q'], [p['Policy']] * 2, p['Q']), 'not a list of targets')
    no(ValueError, lambda: po.SoftPG(p['Policy'], []), 'SoftPG without targets')
    no(TypeError, lambda: po.SoftPG(p['Policy'], p['Q']), 'SoftPG without a list')
    ok(lambda: po.SoftPG(p['Policy'], [p['Q']]), 'SoftPG')
    for k in ('V', 'Q', 'TransitionModel', 'RewardFunction'):
        no(TypeError, lambda: po.PPOClip(p[k]), 'PPOClip', k)
        no(TypeError, lambda: reg.EntropyRegularizer(p[k]), 'EntropyRegularizer', k)
        no(TypeError, lambda: reg.KLDivRegularizer(p[k], 1.0), 'KLDivRegularizer', k)
    for k in ('Policy', 'StochasticV', 'StochasticQ', 'StochasticTransitionModel', 'StochasticReward'):
        ok(lambda: reg.EntropyRegularizer(p[k]), 'EntropyRegularizer', k)
    ok(lambda: po.PPOClip(p['Policy'], regularizer=reg.EntropyRegularizer(p['Policy'])), 'PPOClip')
    for k in ('V', 'StochasticV', 'Policy', 'Q', 'StochasticQ'):
        no(TypeError, lambda: coax.model_updaters.ModelUpdater(p[k]), 'ModelUpdater', k)
    for k in ('TransitionModel', 'StochasticTransitionModel', 'RewardFunction', 'StochasticReward'):
        ok(lambda: coax.model_updaters.ModelUpdater(p[k], optax.sgd(0.1)), 'ModelUpdater', k)
    for kind, a in (('V', 'Q'), ('Q', 'V'), ('Policy', 'V'), ('StochasticV', 'V')):
        no(TypeError, lambda: p[kind].soft_update(p[a], 0.1), 'soft_update', kind, a)
    # successor-state q-functions
    ok(lambda: coax.SuccessorStateQ(p['V'], p['TransitionModel'], p['RewardFunction'], gamma=0.9), 'SuccessorStateQ')
    for args in (('Q', 'TransitionModel', 'RewardFunction'), ('V', 'V', 'RewardFunction'), ('V', 'TransitionModel', 'Q'),
                 ('V', 'RewardFunction', 'TransitionModel'), ('Policy', 'TransitionModel', 'RewardFunction')):
        no(TypeError, lambda: coax.SuccessorStateQ(*[p[a] for a in args], gamma=0.9), 'SuccessorStateQ', args)
    m.sample(discrete=discrete, kinds=sorted(p))


@scenario(quick=40, thorough=1500, floor={'refused-values': 300, 'accepted-values': 100})
def arguments(m):
    """documented argument domains of buffers, tracers, transitions and wrappers"""
    rng = m.rng

    def no(f, *what, exc=(TypeError, ValueError, NotImplementedError)):
        m.raises(exc, f, 'argument-outside-its-domain-is-refused', *what)
        m.ev('refused-values')
        m.nontrivial('refused', *what)

    def ok(f, *what):
        m.ev('accepted-values')
        return f()
    from coax.experience_replay import PrioritizedReplayBuffer, SimpleReplayBuffer
    from coax.reward_tracing import TransitionBatch
    x = float(rng.uniform(0.01, 5))
    cap = int(rng.integers(1, 50))
    b = ok(lambda: PrioritizedReplayBuffer(cap, alpha=x, beta=x, epsilon=x))
    for name in ('alpha', 'beta', 'epsilon'):
        for bad in (0, -x, -1, 'a', None, [x]):
            no(lambda: PrioritizedReplayBuffer(cap, **{'alpha': x, name: bad}), 'PrioritizedReplayBuffer', name, str(bad)[:2])
            no(lambda: setattr(b, name, bad), 'PrioritizedReplayBuffer setter', name, str(bad)[:2])
            m.eq(getattr(b, name), x, 'refusal-has-no-effect', name)
    for bad in (0, -cap, 1.5, 'a', None):
        no(lambda: PrioritizedReplayBuffer(bad, alpha=1.0), 'PrioritizedReplayBuffer capacity', str(bad)[:2])

    def tb(**kw):
        d = dict(s=onp.zeros(2, 'float32'), a=1, logp=-0.5, r=1.0, done=False, gamma=0.9, s_next=onp.ones(2, 'float32'),
                 a_next=0, logp_next=-0.1, w=1.0)
        return TransitionBatch.from_single(**{**d, **kw})
    t = ok(lambda: tb(gamma=pick(rng, [0.0, 0.3, 1.0, 1, 0])))
    for name, bads in {'logp': (0.5, 1, 'a'), 'r': ('1', None), 'done': (None, 'no', 2.5), 'gamma': (-0.1, 1.01, 'a', None),
                       'logp_next': (0.2, 'a'), 'w': (-0.5, 0, 'a', None)}.items():
        for bad in bads:
            no(lambda: tb(**{name: bad}), 'TransitionBatch.from_single', name, str(bad))
    simple = SimpleReplayBuffer(cap)
    for bad in (1, None, 'tb', onp.zeros(3), [1, 2]):
        if not (bad is None):
            no(lambda: simple.add(bad), 'SimpleReplayBuffer.add', str(type(bad)))
            m.eq(len(simple), 0, 'refusal-has-no-effect')
            no(lambda: b.add(bad, Adv=1.0), 'PrioritizedReplayBuffer.add', str(type(bad)))
            m.eq(len(b), 0, 'refusal-has-no-effect')
    simple.add(t)
    m.eq(len(simple), 1, 'accepted')
    e = gym.make('CartPole-v1')
    for bad in (0, -1, 1.5, 'a', None):
        no(lambda: coax.wrappers.FrameStacking(e, bad), 'FrameStacking', str(bad))
    no(lambda: coax.wrappers.BoxActionsToReals(e), 'BoxActionsToReals of discrete actions')
    no(lambda: coax.wrappers.BoxActionsToDiscrete(e, 3), 'BoxActionsToDiscrete of discrete actions')
    p = gym.make('Pendulum-v1')
    for bad in (1.5, 'a', None):
        no(lambda: coax.wrappers.BoxActionsToDiscrete(p, bad), 'BoxActionsToDiscrete', str(bad), exc=Exception)
    no(lambda: coax.wrappers.BoxActionsToDiscrete(p, (3, 3)), 'BoxActionsToDiscrete', 'wrong number')
    ok(lambda: coax.wrappers.BoxActionsToDiscrete(p, int(rng.integers(2, 9))))
    ok(lambda: coax.wrappers.BoxActionsToReals(p))
    mon = coax.wrappers.TrainMonitor(e)
    no(lambda: mon.record_metrics([1, 2]), 'record_metrics')
    good = mon.get_counters()
    name = pick(rng, sorted(good))
    no(lambda: mon.set_counters({k: v for k, v in good.items() if k != name}), 'set_counters', 'missing')
    no(lambda: mon.set_counters({**good, 'more': 1}), 'set_counters', 'extra')
    m.eq({k: v for k, v in mon.get_counters().items() if k != '_ep_actions'},
         {k: v for k, v in good.items() if k != '_ep_actions'}, 'refusal-has-no-effect')
    no(lambda: coax.proba_dists.CategoricalDist(p.action_space), 'CategoricalDist of a box')
    no(lambda: coax.proba_dists.NormalDist(e.action_space), 'NormalDist of discrete actions')
    no(lambda: coax.proba_dists.ProbaDist(3), 'ProbaDist of no space')
    no(lambda: coax.proba_dists.DiscretizedIntervalDist(gym.spaces.Box(0, 1, (2,)), 5), 'DiscretizedIntervalDist')
    m.nontrivial(cap)
