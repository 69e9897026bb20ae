"""Table functions whose gradients contain nan in a few entries only (a nan enters through one transition)."""
import types

import gymnasium as gym
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from coax.reward_tracing import TransitionBatch
from vmon.gen import pick

NS, NA = 6, 3


def _env():
    return types.SimpleNamespace(
        observation_space=gym.spaces.Discrete(NS), action_space=gym.spaces.Discrete(NA))


def _table(shape, name='t'):
    return hk.get_parameter(name, shape, init=hk.initializers.RandomNormal(0.5))


def _lookup(shape):
    def func(S, *args):
        hk.get_parameter('unused', (2,), init=hk.initializers.Constant(1.))
        out = jnp.take(_table((NS,) + shape), jnp.argmax(S, -1), axis=0)
        if len(args) == 2:                           # type 1: pick the action
            out = jnp.take_along_axis(out, jnp.argmax(args[0], -1)[:, None], axis=1)[:, 0]
        return out
    return func


def batch(rng, size):
    S, Sn = rng.integers(NS, size=size), rng.integers(NS, size=size)
    A, An = rng.integers(NA, size=size), rng.integers(NA, size=size)
    f = lambda x: x.astype('float32')
    return TransitionBatch(
        S=S, A=A, logP=f(onp.full(size, -onp.log(NA))), Rn=f(rng.normal(size=size)), In=f(onp.full(size, 0.9)),
        S_next=Sn, A_next=An, logP_next=f(onp.full(size, -onp.log(NA))), W=f(rng.uniform(0.5, 2, size)),
        idx=onp.arange(size))


def snap(u, f):
    return jax.tree_util.tree_map(onp.array, (f.params, f.function_state, u.optimizer_state))


def same(a, b):
    return all(onp.array_equal(x, y, equal_nan=True)
               for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def optimizer(rng):
    return pick(rng, [optax.sgd(0.1), optax.adam(0.1), optax.sgd(0.1, momentum=0.9)])


def drive(m, u, f, call, tb_good, tb_bad):
    """call(tb) updates: the good batch is accepted, the poisoned one is refused with no effect, then all goes on"""
    b0 = snap(u, f)
    g = u.grads_and_metrics(*tb_good if isinstance(tb_good, tuple) else (tb_good,))[0]
    call(tb_good)
    m.true(not any(onp.any(x) for x in jax.tree_util.tree_leaves(g)) or not same(b0, snap(u, f)), 'healthy-update-is-applied')
    b1 = snap(u, f)
    g = u.grads_and_metrics(*tb_bad if isinstance(tb_bad, tuple) else (tb_bad,))[0]
    bad = [onp.isnan(onp.asarray(x)) for x in jax.tree_util.tree_leaves(g)]
    if not any(x.any() for x in bad):
        return
    if not any(x.all() for x in bad):
        m.ev('partial-nan-gradients')
    m.raises(RuntimeError, lambda: call(tb_bad), 'nan-gradients-refused', [int(x.sum()) for x in bad])
    m.true(same(b1, snap(u, f)), 'refused-update-has-no-effect')
    call(tb_good)
    m.true(not any(onp.isnan(x).any() for x in jax.tree_util.tree_leaves(snap(u, f))), 'training-continues')


def poison(tb, fields, rng):
    bad = tb.copy()
    k = pick(rng, fields)
    x = onp.array(getattr(bad, k), 'float32')
    x[int(rng.integers(len(x)))] = onp.nan
    setattr(bad, k, x)
    return bad


def td_case(m):
    rng = m.rng
    seed, size = int(rng.integers(2 ** 31)), int(pick(rng, [2, 8, 16]))
    kind = pick(rng, ['V', 'Sarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning'])
    if kind == 'V':
        f = coax.V(lambda S, is_training: _lookup(())(S), _env(), random_seed=seed)
        u = coax.td_learning.SimpleTD(f, optimizer=optimizer(rng))
    else:
        t = int(rng.integers(1, 3))
        func = (lambda S, A, is_training: _lookup((NA,))(S, A, is_training)) if t == 1 else \
            (lambda S, is_training: _lookup((NA,))(S))
        f = coax.Q(func, _env(), random_seed=seed)
        u = getattr(coax.td_learning, kind)(f, q_targ=f.copy(), optimizer=optimizer(rng))
    good = batch(rng, size)
    drive(m, u, f, u.update, good, poison(good, ['Rn', 'W'], rng))
    m.nontrivial(kind, size)
    m.sample(updater=kind, size=size)


def pg_case(m):
    rng = m.rng
    seed, size = int(rng.integers(2 ** 31)), int(pick(rng, [2, 8, 16]))
    pi = coax.Policy(lambda S, is_training: {'logits': _lookup((NA,))(S)}, _env(), random_seed=seed)
    kind = pick(rng, ['VanillaPG', 'PPOClip'])
    u = getattr(coax.policy_objectives, kind)(pi, optimizer=optimizer(rng))
    tb, adv = batch(rng, size), rng.normal(size=size).astype('float32')
    if rng.random() < 0.5:
        bad, badv = tb, adv.copy()
        badv[int(rng.integers(size))] = onp.nan
    else:
        bad, badv = poison(tb, ['W', 'logP'] if kind == 'PPOClip' else ['W'], rng), adv
    drive(m, u, pi, lambda x: u.update(*x), (tb, adv), (bad, badv))
    m.nontrivial(kind, size)
    m.sample(objective=kind, size=size)


def model_case(m):
    rng = m.rng
    seed, size = int(rng.integers(2 ** 31)), int(pick(rng, [2, 8, 16]))
    t = int(rng.integers(1, 3))
    func = (lambda S, A, is_training: _lookup((NA,))(S, A, is_training)) if t == 1 else \
        (lambda S, is_training: _lookup((NA,))(S))
    f = coax.RewardFunction(func, _env(), random_seed=seed)
    u = coax.model_updaters.ModelUpdater(f, optimizer=optimizer(rng))
    good = batch(rng, size)
    drive(m, u, f, u.update, good, poison(good, ['Rn', 'W'], rng))
    m.nontrivial(t, size)
    m.sample(type=t, size=size)
