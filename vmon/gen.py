"""Generators shared by the scenarios (plain numpy, seeded by the case)."""
import numpy as onp


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def tagged_obs(rng, kind, tag):
    """An observation of the given kind that carries the unique number ``tag``."""
    if kind == 'int':
        return int(tag)
    if kind == 'npint':
        return onp.int64(tag)
    if kind == 'vec':
        v = rng.standard_normal(3)
        v[0] = tag
        return v
    if kind == 'img':
        v = onp.zeros((2, 3, 1), dtype='float32')
        v[0, 1, 0] = tag
        return v
    if kind == 'dict':
        return {'a': onp.asarray([tag, tag + 0.5]), 'b': onp.int64(tag)}
    if kind == 'tuple':
        return (onp.asarray([float(tag)]), {'x': onp.asarray(tag)})
    raise ValueError(kind)


def zero_or(rng, tag, p=0.08):
    """Mostly ``tag``; sometimes zero, the value that code tends to mistake for 'absent'."""
    return 0 if rng.random() < p else tag


OBS_KINDS = ('int', 'npint', 'vec', 'img', 'dict', 'tuple')


def obs_tag(kind, batch, i):
    """Read the tag back out of element ``i`` of a batched observation."""
    if kind in ('int', 'npint'):
        return float(onp.asarray(batch)[i])
    if kind == 'vec':
        return float(onp.asarray(batch)[i, 0])
    if kind == 'img':
        return float(onp.asarray(batch)[i, 0, 1, 0])
    if kind == 'dict':
        a, b = onp.asarray(batch['a'])[i], onp.asarray(batch['b'])[i]
        assert a[0] == b and a[1] == b + 0.5, 'torn observation'
        return float(b)
    if kind == 'tuple':
        a, b = onp.asarray(batch[0])[i], onp.asarray(batch[1]['x'])[i]
        assert a[0] == b, 'torn observation'
        return float(b)
    raise ValueError(kind)


def batch1_equal(m, batch, single, rule):
    """``batch`` is ``single`` with one leading axis of size one, leaf by leaf."""
    import jax
    bl, bt = jax.tree_util.tree_flatten(batch)
    sl, st = jax.tree_util.tree_flatten(single)
    m.true(bt == st, rule + ':structure', f'{bt} vs {st}')
    for b, s in zip(bl, sl):
        b, s = onp.asarray(b), onp.asarray(s)
        m.true(b.shape == (1,) + s.shape and bool(onp.all(b[0] == s)), rule, b, s)
