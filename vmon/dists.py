"""Leaf and composite distributions with float64 oracles (independent of coax)."""
import gymnasium as gym
import jax.numpy as jnp
import numpy as onp

from vmon.gen import pick
from vmon.models import log_softmax

LOG2PI = onp.log(2 * onp.pi)


def f32(x):
    return jnp.asarray(x, 'float32')


# ------------------------------------------------------------------ leaves with float64 oracles
class Cat:
    def __init__(self, rng):
        self.n = int(rng.integers(2, 7))
        self.space = gym.spaces.Discrete(self.n)

    def params(self, rng, b):
        scale = pick(rng, [0.0, 1.0, 1.0, 5.0, 60.0])
        return {'logits': f32(rng.normal(size=(b, self.n)) * scale + rng.normal() * 20)}

    def lp(self, p):
        return log_softmax(onp.asarray(p['logits'], 'float64'))

    def variates(self, rng, b):
        return f32(onp.eye(self.n)[rng.integers(self.n, size=b)])

    def log_proba(self, p, X):
        return (self.lp(p) * onp.asarray(X, 'float64')).sum(1)

    def cross(self, p, q):
        return -(onp.exp(self.lp(p)) * self.lp(q)).sum(1)

    def entropy(self, p):
        return self.cross(p, p)

    def mean(self, p):
        return onp.exp(self.lp(p))

    def mode_ok(self, m, p, X):
        lp = self.lp(p)
        s = onp.sort(lp, 1)
        clear = s[:, -1] - s[:, -2] > 1e-2
        X = onp.asarray(X)
        m.close(X.sum(1), onp.ones(len(X)), 'mode-is-normalised', rtol=1e-4)
        m.true(onp.all((X.argmax(1) == lp.argmax(1))[clear]), 'mode-is-the-likeliest', X, lp)

    def stats(self, m, p, X, rule):
        """X: n samples of the first row"""
        X = onp.asarray(X, 'float64')
        m.close(X.sum(1), onp.ones(len(X)), rule + ':sample-is-normalised', rtol=1e-3, atol=1e-3)
        m.true(onp.all(X >= 0), rule + ':sample-is-nonnegative')
        q, n = onp.exp(self.lp(p)[0]), len(X)
        c = onp.bincount(X.argmax(1), minlength=self.n)
        z = (c - n * q) / onp.sqrt(n * q * (1 - q) + 1)
        m.true(onp.all(onp.abs(z) < 6.5), rule + ':frequencies', c / n, q)
        m.ev('sampled', n)

    def scalar(self, X):
        return onp.asarray(X).argmax(1).astype('float64')


def rare_categories(m, rng, sample, rule, N=12000):
    """one likely category and many rare ones: sample(logits, N) -> N indices; compares masses of groups of categories"""
    n = int(rng.integers(40, 160))
    top = int(rng.integers(n))
    how = pick(rng, ['hopeless', 'rare', 'spread'])
    logits = {'hopeless': onp.full(n, -rng.uniform(18, 40)),
              'rare': onp.full(n, onp.log(rng.uniform(0.05, 0.3) / n)),
              'spread': -rng.uniform(0, 12, n)}[how]
    logits[top] = 0.
    p = onp.exp(log_softmax(logits + rng.normal() * 10))
    x = onp.asarray(sample(logits.astype('float32'), N))
    c = onp.bincount(x, minlength=n)
    m.eq(int(c.sum()), N, rule + ':counts')
    order = onp.argsort(p)
    for lo in (0.01, 0.05, 0.1, 0.3, 1.0):      # the least likely categories with a total mass up to lo
        k = order[onp.cumsum(p[order]) <= lo + 1e-12]
        q, got = p[k].sum(), c[k].sum()
        m.true(abs(got - N * q) <= 6.5 * onp.sqrt(N * q * (1 - q) + 1) + 1e-9 * N, rule + ':rare-categories',
               how, len(k), got / N, q)
    m.ev('rare-sampled', N)
    return how, n


class Nor:
    def __init__(self, rng):
        self.shape = pick(rng, [(1,), (3,), (2, 2), (), (8,), (3, 4)])
        low = rng.uniform(-5, 0, self.shape).astype('float32')
        high = rng.uniform(0.5, 5, self.shape).astype('float32')
        self.space = gym.spaces.Box(low, high, self.shape, dtype='float32')
        self.clip = (-20., 20.)

    def params(self, rng, b):
        s = (b,) + self.shape
        # up to (but not beyond) the documented clip of the log-variance
        return {'mu': f32(rng.normal(size=s) * pick(rng, [1., 4.])),
                'logvar': f32(onp.clip(rng.normal(size=s) * pick(rng, [0.5, 2.0]) + pick(
                    rng, [0, 0, 0, 0, 0, 12, -12]), -19, 19))}

    def mv(self, p):
        mu = onp.asarray(p['mu'], 'float64')
        lv = onp.clip(onp.asarray(p['logvar'], 'float64'), *self.clip)
        return mu.reshape(len(mu), -1), lv.reshape(len(lv), -1)

    def variates(self, rng, b):
        return f32(rng.normal(size=(b,) + self.shape) * 2)

    def log_proba(self, p, X):
        mu, lv = self.mv(p)
        x = onp.asarray(X, 'float64').reshape(mu.shape)
        return -0.5 * (LOG2PI + lv + (x - mu) ** 2 * onp.exp(-lv)).sum(1)

    def cross(self, p, q):
        m1, v1 = self.mv(p)
        m2, v2 = self.mv(q)
        return 0.5 * (LOG2PI + v2 + (onp.exp(v1) + (m1 - m2) ** 2) * onp.exp(-v2)).sum(1)

    def entropy(self, p):
        return self.cross(p, p)

    def mean(self, p):
        return onp.asarray(p['mu'], 'float64')

    def mode_ok(self, m, p, X):
        m.close(X, self.mean(p), 'mode-is-the-likeliest', rtol=1e-5)

    def stats(self, m, p, X, rule):
        mu, lv = self.mv(p)
        X = onp.asarray(X, 'float64')
        n = len(X)
        X = X.reshape(n, -1)
        z = (X.mean(0) - mu[0]) / onp.exp(lv[0] / 2) * onp.sqrt(n)
        m.true(onp.all(onp.abs(z) < 6.5), rule + ':mean', z)
        v = X.var(0) / onp.exp(lv[0])
        m.true(onp.all(onp.abs(v - 1) < 6.5 * onp.sqrt(2 / n)), rule + ':variance', v)
        # every component on its own
        if X.shape[1] > 1:
            c = onp.corrcoef(X.T)[onp.triu_indices(X.shape[1], 1)]
            m.true(onp.all(onp.abs(c) < 6.5 / onp.sqrt(n)), rule + ':components-independent', c)
        m.ev('sampled', n)

    def scalar(self, X):
        return onp.asarray(X, 'float64').reshape(len(X), -1)[:, 0]


class Comp:
    """Nested composite."""
    def __init__(self, rng, depth=0):
        kinds = ['tuple', 'dict', 'multidiscrete', 'multibinary'] + (['cat', 'nor'] if depth else [])
        self.kind = pick(rng, kinds if depth < 2 else ['cat', 'nor'])
        k = int(rng.integers(1, 4))
        if self.kind == 'cat':
            self.leaf = Cat(rng)
            self.space = self.leaf.space
        elif self.kind == 'nor':
            self.leaf = Nor(rng)
            self.space = self.leaf.space
        elif self.kind in ('multidiscrete', 'multibinary'):
            self.kids = {}
            for i in range(k):
                c = Cat(rng)
                if self.kind == 'multibinary':
                    c.n, c.space = 2, gym.spaces.Discrete(2)
                self.kids[i] = c
            self.space = gym.spaces.MultiBinary(k) if self.kind == 'multibinary' else \
                gym.spaces.MultiDiscrete([c.n for c in self.kids.values()])
        elif self.kind == 'tuple':
            self.kids = {i: Comp(rng, depth + 1) for i in range(k)}
            self.space = gym.spaces.Tuple([c.space for c in self.kids.values()])
        else:
            self.kids = {n: Comp(rng, depth + 1) for n in ('x', 'b', 'm')[:k]}
            self.space = gym.spaces.Dict({n: c.space for n, c in self.kids.items()})
        self.is_leaf = self.kind in ('cat', 'nor')

    def _build(self, fn):
        if self.is_leaf:
            return fn(self.leaf)
        out = {n: (c._build(fn) if isinstance(c, Comp) else fn(c)) for n, c in self.kids.items()}
        return out if self.kind == 'dict' else tuple(out.values())

    def leaves(self, *trees):
        """[(leaf, subtree...)]"""
        if self.is_leaf:
            return [(self.leaf,) + trees]
        out = []
        for n, c in self.kids.items():
            sub = tuple(t[n] for t in trees)
            out += c.leaves(*sub) if isinstance(c, Comp) else [(c,) + sub]
        return out

    def params(self, rng, b):
        return self._build(lambda leaf: leaf.params(rng, b))

    def variates(self, rng, b):
        t = self._build(lambda leaf: leaf.variates(rng, b))
        return t

    def log_proba(self, p, X):
        return sum(leaf.log_proba(a, x) for leaf, a, x in self.leaves(p, X))

    def cross(self, p, q):
        return sum(leaf.cross(a, b) for leaf, a, b in self.leaves(p, q))

    def entropy(self, p):
        return self.cross(p, p)
