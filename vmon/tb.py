"""Tagged transition batches: every field is a function of one unique number."""
import jax
import numpy as onp

from coax.reward_tracing import TransitionBatch
from vmon.gen import tagged_obs, obs_tag


def make(rng, okind, tags):
    ones = [TransitionBatch.from_single(
        s=tagged_obs(rng, okind, t), a=int(t), logp=-float(t % 7) / 10, r=float(t) * 0.5,
        done=bool(t % 3 == 0), gamma=0.9, s_next=tagged_obs(rng, okind, t + 100000),
        a_next=int(t + 1), logp_next=-float(t % 5) / 10, w=1.0 + t % 4) for t in tags]
    return jax.tree_util.tree_map(lambda *x: onp.concatenate(x, axis=0), *ones)


def verify(m, okind, tb, i, tag, ident, rule):
    """Element i of batch tb is exactly transition ``tag`` carrying identifier ``ident``."""
    m.ev('transitions-compared')
    m.eq(obs_tag(okind, tb.S, i), float(tag), rule + ':S')
    m.eq(obs_tag(okind, tb.S_next, i), float(tag + 100000), rule + ':S_next')
    m.eq(int(onp.asarray(tb.A)[i]), tag, rule + ':A')
    m.eq(int(onp.asarray(tb.A_next)[i]), tag + 1, rule + ':A_next')
    m.close(onp.asarray(tb.Rn)[i], tag * 0.5, rule + ':Rn')
    m.close(onp.asarray(tb.In)[i], 0.0 if tag % 3 == 0 else 0.9, rule + ':In')
    m.close(onp.asarray(tb.logP)[i], -(tag % 7) / 10, rule + ':logP')
    m.close(onp.asarray(tb.logP_next)[i], -(tag % 5) / 10, rule + ':logP_next')
    m.close(onp.asarray(tb.W)[i], 1.0 + tag % 4, rule + ':W')
    if ident is not None:
        m.eq(int(onp.asarray(tb.idx)[i]), ident, rule + ':idx')


def flat(lo, n):
    """n transitions numbered lo.. in one batch, every field a function of the number."""
    t = onp.arange(lo, lo + n)
    return TransitionBatch(
        S=t.astype('float64'), A=t, logP=-(t % 7) / 10., Rn=t * 0.5, In=(t % 3) * 0.3,
        S_next=t + 0.25, A_next=t + 1, logP_next=-(t % 5) / 10., W=1. + t % 4, idx=t * 0)
