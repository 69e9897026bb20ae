"""Random gymnasium spaces, their elements, strict membership and batches (plain numpy)."""
import gymnasium as gym
import numpy as onp

from vmon.gen import pick


def box(rng, ints=True, unbounded=True):
    shape = pick(rng, [(1,), (3,), (3,), (2, 2), (2, 1, 3), (), (17,)])
    kind = pick(rng, ['f32', 'f32', 'f64'] + (['u8', 'i32'] if ints else []) + (['inf', 'half'] if unbounded else []))
    if kind == 'u8':
        return gym.spaces.Box(0, 255, shape, 'uint8')
    if kind == 'i32':
        lo = rng.integers(-60, 10, shape)
        return gym.spaces.Box(lo.astype('int32'), (lo + rng.integers(1, 80, shape)).astype('int32'), dtype='int32')
    if kind == 'inf':
        return gym.spaces.Box(-onp.inf, onp.inf, shape, 'float32')
    if kind == 'half':
        return gym.spaces.Box(-1.5, onp.inf, shape, 'float32')
    dt = 'float64' if kind == 'f64' else 'float32'
    size = 10. ** rng.uniform(-2, 2)
    lo = (rng.uniform(-1, 1, shape) * pick(rng, [1., size, 30.])).astype(dt)
    hi = (lo + size * rng.uniform(0.3, 1, shape)).astype(dt)
    return gym.spaces.Box(lo, hi, dtype=dt)


def space(rng, depth=2, ints=True, unbounded=True):
    kind = pick(rng, ['disc', 'box', 'box', 'mdisc', 'mbin'] + (['tuple', 'dict'] * 2 if depth else []))
    if kind == 'disc':
        return gym.spaces.Discrete(int(pick(rng, [rng.integers(2, 12), rng.integers(2, 12), rng.integers(12, 400)])))
    if kind == 'box':
        return box(rng, ints, unbounded)
    if kind == 'mdisc':
        return gym.spaces.MultiDiscrete(rng.integers(2, pick(rng, [6, 6, 40]), rng.integers(1, pick(rng, [4, 4, 9]))))
    if kind == 'mbin':
        return gym.spaces.MultiBinary(int(pick(rng, [rng.integers(1, 5), rng.integers(1, 5), 20])))
    subs = [space(rng, depth - 1, ints, unbounded) for _ in range(int(rng.integers(1, 5)))]
    if kind == 'tuple':
        return gym.spaces.Tuple(subs)
    return gym.spaces.Dict({k: s for k, s in zip('cadb', subs)})


def element(rng, sp, where=None):
    """A random element; Box entries are sometimes exactly on the boundary."""
    if isinstance(sp, gym.spaces.Discrete):
        return int(rng.integers(sp.n))
    if isinstance(sp, gym.spaces.MultiDiscrete):
        return onp.asarray([rng.integers(n) for n in sp.nvec], dtype=sp.dtype)
    if isinstance(sp, gym.spaces.MultiBinary):
        return rng.integers(0, 2, sp.n).astype(sp.dtype)
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(element(rng, s) for s in sp.spaces)
    if isinstance(sp, gym.spaces.Dict):
        return {k: element(rng, s) for k, s in sp.spaces.items()}
    lo, hi = onp.maximum(sp.low, -200.).astype('float64'), onp.minimum(sp.high, 200.).astype('float64')
    if onp.issubdtype(sp.dtype, onp.integer):
        lo, hi = sp.low.astype('int64'), sp.high.astype('int64')
        x = rng.integers(lo, hi + 1)
    else:
        x = lo + rng.random(sp.shape) * (hi - lo)
    edge = rng.random(sp.shape)
    x = onp.where(edge < 0.08, lo, onp.where(edge > 0.92, hi, x))
    x = onp.clip(x.astype(sp.dtype), sp.low, sp.high)
    return onp.asarray(x, dtype=sp.dtype)


def member(sp, x):
    """Strict membership by value, shape and kind (containers and numeric kind included)."""
    if isinstance(sp, gym.spaces.Tuple):
        return isinstance(x, tuple) and len(x) == len(sp.spaces) and all(member(s, v) for s, v in zip(sp.spaces, x))
    if isinstance(sp, gym.spaces.Dict):
        return isinstance(x, dict) and set(x) == set(sp.spaces) and all(member(s, x[k]) for k, s in sp.spaces.items())
    x = onp.asarray(x)
    if isinstance(sp, gym.spaces.Discrete):
        return x.shape == () and onp.issubdtype(x.dtype, onp.integer) and 0 <= int(x) < sp.n
    if not x.shape == sp.shape:
        return False
    if isinstance(sp, gym.spaces.Box):
        if onp.issubdtype(sp.dtype, onp.integer) and not onp.issubdtype(x.dtype, onp.integer):
            return False
        return bool(onp.all((x >= sp.low) & (x <= sp.high)))
    hi = sp.nvec if isinstance(sp, gym.spaces.MultiDiscrete) else 2
    return onp.issubdtype(x.dtype, onp.integer) and bool(onp.all((x >= 0) & (x < hi)))


def stack(sp, xs):
    """A batch of elements, the way transition batches hold them."""
    if isinstance(sp, gym.spaces.Tuple):
        return tuple(stack(s, [x[i] for x in xs]) for i, s in enumerate(sp.spaces))
    if isinstance(sp, gym.spaces.Dict):
        return {k: stack(s, [x[k] for x in xs]) for k, s in sp.spaces.items()}
    return onp.stack([onp.asarray(x) for x in xs])


def leaves(sp, x, path=''):
    """(path, leaf space, leaf value) in a fixed order"""
    if isinstance(sp, gym.spaces.Tuple):
        for i, s in enumerate(sp.spaces):
            yield from leaves(s, x[i], f'{path}/{i}')
    elif isinstance(sp, gym.spaces.Dict):
        for k, s in sp.spaces.items():
            yield from leaves(s, x[k], f'{path}/{k}')
    else:
        yield path, sp, x
