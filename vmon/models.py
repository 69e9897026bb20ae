"""Small function approximators with independent float64 numpy twins.

Every model is a coax object built from a haiku function plus a method that evaluates the same
formula in numpy, given the parameters and state read back from the coax object.  The models are
nonlinear in the action, behave differently in training mode (a shift) and carry a state (a counter
that is advanced in training mode and moves the output), so that using the wrong parameters, the
wrong state, the wrong mode or the wrong input is visible in the output.
"""
import types

import gymnasium as gym
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp

import coax
from vmon.gen import pick

H = 4


# ---------------------------------------------------------------- spaces
class Obs:
    def __init__(self, rng, kind=None, img=False, rich=False):
        """img: boxes may have a two-dimensional shape; rich: further structures"""
        self.kind = kind or pick(rng, ['box', 'disc', 'dict'] * 2 + ['tuple', 'multi', 'mbin'] * bool(rich))
        self.d, self.n = int(rng.integers(2, 4)), int(rng.integers(2, 5))
        if rich and rng.random() < 0.2:
            self.d, self.n = int(rng.integers(4, 9)), int(rng.integers(5, 12))
        self.shape = (self.d,)
        if img and rng.random() < 0.5:
            self.shape = pick(rng, [(2, 2), (2, 3), (1, 2), (3, 1)])
            self.d = int(onp.prod(self.shape))
        box, disc = gym.spaces.Box(-3, 3, self.shape, dtype='float32'), gym.spaces.Discrete(self.n)
        self.space = {'box': box, 'disc': disc, 'dict': gym.spaces.Dict({'a': box, 'b': disc}),
                      'tuple': gym.spaces.Tuple((disc, box)), 'multi': gym.spaces.MultiDiscrete([self.n, 3]),
                      'mbin': gym.spaces.MultiBinary(self.n)}[self.kind]
        self.dim = {'box': self.d, 'disc': self.n, 'dict': self.d + self.n, 'tuple': self.d + self.n,
                    'multi': self.n + 3, 'mbin': self.n}[self.kind]

    def sample(self, rng, size=None):
        b = 1 if size is None else size
        box = rng.uniform(-2.9, 2.9, (b,) + self.shape).astype('float32')
        disc = rng.integers(self.n, size=b)
        if self.kind == 'multi':
            x = onp.stack([disc, rng.integers(3, size=b)], 1)
        elif self.kind == 'mbin':
            x = rng.integers(2, size=(b, self.n)).astype('int8')
        else:
            x = {'box': box, 'disc': disc, 'dict': {'a': box, 'b': disc}, 'tuple': (disc, box)}[self.kind]
        if size is None:
            x = jax.tree_util.tree_map(lambda v: v[0], x)
            if self.kind == 'disc':
                x = int(x)
        return x

    def feat(self, X):
        """numpy twin of the default preprocessor, concatenated (X: a batch)."""
        if self.kind == 'box':
            return flat64(X)
        if self.kind == 'disc':
            return onp.eye(self.n)[onp.asarray(X)]
        if self.kind == 'mbin':
            return flat64(X)
        if self.kind == 'multi':
            return onp.concatenate([onp.eye(self.n)[onp.asarray(X)[:, 0]], onp.eye(3)[onp.asarray(X)[:, 1]]], 1)
        if self.kind == 'tuple':
            return onp.concatenate([onp.eye(self.n)[onp.asarray(X[0])], flat64(X[1])], 1)
        return onp.concatenate([flat64(X['a']), onp.eye(self.n)[onp.asarray(X['b'])]], 1)


    def dist_feat(self, X):
        """numpy twin of ProbaDist(space).preprocess_variate, concatenated."""
        if self.kind in ('disc', 'multi'):
            return self.feat(X)
        if self.kind == 'tuple':
            u = (flat64(X[1]) + 3) / 6
            return onp.concatenate([onp.eye(self.n)[onp.asarray(X[0])], onp.log(u) - onp.log1p(-u)], 1)
        u = (flat64(X if self.kind == 'box' else X['a']) + 3) / 6
        u = onp.log(u) - onp.log1p(-u)
        return u if self.kind == 'box' else onp.concatenate([u, onp.eye(self.n)[onp.asarray(X['b'])]], 1)


def alike(f, g):
    """same structure and shapes (a soft update is possible)"""
    shapes = [[(x.shape, x.dtype) for x in jax.tree_util.tree_leaves(h.params)] for h in (f, g)]
    return shapes[0] == shapes[1] and all(
        jax.tree_util.tree_structure(getattr(f, k)) == jax.tree_util.tree_structure(getattr(g, k))
        for k in ('params', 'function_state'))


def flat64(X):
    X = onp.asarray(X, 'float64')
    return X.reshape(len(X), -1)


def jfeat(S):
    def flat(x):
        return x.reshape(x.shape[0], -1)
    if isinstance(S, (tuple, list)):
        return jnp.concatenate([flat(x) for x in S], axis=1)
    return jnp.concatenate([flat(S['a']), S['b']], axis=1) if isinstance(S, dict) else flat(S)


def scaled_preprocessor(space, scale):
    """The default observation preprocessor followed by a multiplication (None: the default)."""
    if scale == 1:
        return None
    default = coax.utils.default_preprocessor(space)
    return lambda rng, X: jax.tree_util.tree_map(lambda x: x * scale, default(rng, X))


def tobatch(x):
    return jax.tree_util.tree_map(lambda v: onp.asarray(v)[None], x)


class Act:
    """Discrete actions, or a box whose actions are fed to q in the raw space of a normal policy."""
    def __init__(self, rng, kind=None, rich=False):
        self.kind = kind or pick(rng, ['disc', 'box'])
        big = rich and rng.random() < 0.2
        if self.kind == 'disc':
            self.n = self.dim = int(rng.integers(5, 14) if big else rng.integers(2, 5))
            self.space = gym.spaces.Discrete(self.n)
            self.pre = None
        else:
            self.dim = int(rng.integers(3, 6) if big else rng.integers(1, 3))
            self.low = rng.uniform(-3, -0.5, self.dim).astype('float32')
            self.high = rng.uniform(0.5, 3, self.dim).astype('float32')
            self.space = gym.spaces.Box(self.low, self.high, dtype='float32')
            self.pre = coax.proba_dists.NormalDist(self.space).preprocess_variate

    def sample(self, rng, size=None):
        b = 1 if size is None else size
        if self.kind == 'disc':
            x = rng.integers(self.n, size=b)
            return int(x[0]) if size is None else x
        u = rng.uniform(0.05, 0.95, (b, self.dim))
        x = (self.low + u * (self.high - self.low)).astype('float32')
        return x[0] if size is None else x

    def feat(self, A):
        if self.kind == 'disc':
            return onp.eye(self.n)[onp.asarray(A)]
        low, high = self.low.astype('float64'), self.high.astype('float64')
        u = (onp.asarray(A, 'float64') - low) / (high - low)
        return onp.log(u) - onp.log1p(-u)


def env(obs, act):
    return types.SimpleNamespace(observation_space=obs.space, action_space=act.space)


# ---------------------------------------------------------------- the formulas
def _raw(np, P, X, A, n, training):
    """(batch, *out) output; A is None for functions of the state only."""
    z = X @ P['w'] + P['b']
    if A is not None:
        z = z + A @ P['wa']
    h = np.tanh(z)
    out = np.tensordot(h, P['wo'], axes=1) + P['bo'] + P['k'] * n
    if training:
        out = out + 0.5 * P['t']
    return out


def _hk(shapes, dim, adim, stateful, sign=True):
    def params(X_dtype=jnp.float32):
        init = hk.initializers.RandomNormal(1.0)
        P = {'w': hk.get_parameter('w', (dim, H), init=init),
             'b': hk.get_parameter('b', (H,), init=init)}
        if adim:
            P['wa'] = hk.get_parameter('wa', (adim, H), init=init)
        return P, init

    def head(P, init, name, shape):
        Q = dict(P)
        Q['wo'] = hk.get_parameter(name + '_wo', (H,) + shape, init=init)
        for k in ('bo', 't', 'k'):
            Q[k] = hk.get_parameter(name + '_' + k, shape, init=hk.initializers.RandomNormal(0.3))
        return Q

    def run(S, A, is_training):
        P, init = params()
        if stateful:
            n = hk.get_state('n', (), init=hk.initializers.Constant(1.0))
            if is_training:
                hk.set_state('n', n + 1.0)
        else:
            n = 0.0
        return {name: _raw(jnp, head(P, init, name, shape), jfeat(S), A, n, is_training)
                for name, shape in shapes.items()}

    if adim:
        return lambda S, A, is_training: run(S, A, is_training)
    return lambda S, is_training: run(S, None, is_training)


def _np64(tree):
    return {k: onp.asarray(v, 'float64') for m in tree.values() for k, v in m.items()}


class Model:
    """Common twin machinery; ``self.f`` is the coax object."""
    stateful = False

    def twin(self, X, A=None, training=False, params=None, state=None):
        P = _np64(self.f.params if params is None else params)
        S = _np64(self.f.function_state if state is None else state)
        n = float(S['n']) if self.stateful else 0.0
        out = {}
        for name in self.shapes:
            Q = {'w': P['w'], 'b': P['b'], 'wo': P[name + '_wo'], 'bo': P[name + '_bo'],
                 't': P[name + '_t'], 'k': P[name + '_k']}
            if 'wa' in P:
                Q['wa'] = P['wa']
            out[name] = _raw(onp, Q, X, A, n, training)
        return out

    def randomize(self, rng, scale=0.8):
        self.f.params = jax.tree_util.tree_map(
            lambda p: jnp.asarray(rng.normal(size=p.shape) * scale, p.dtype), self.f.params)
        if self.stateful:
            self.f.function_state = jax.tree_util.tree_map(
                lambda p: jnp.asarray(float(rng.integers(5)), p.dtype), self.f.function_state)

    def indifferent(self):
        """Make the output the same for all states and actions (exact ties between all actions)."""
        def flat(name, p):
            if name.endswith('_wo'):
                return jnp.zeros_like(p)
            if getattr(self, 'modeltype', 0) == 2 and name not in ('w', 'b', 'wa'):
                return jnp.broadcast_to(p[:1], p.shape)
            return p
        self.f.params = {mod: {k: flat(k, v) for k, v in ps.items()} for mod, ps in self.f.params.items()}

    def like(self):
        """A twin around a copy of the coax object (own params)."""
        m = object.__new__(type(self))
        m.__dict__.update(self.__dict__)
        m.f = self.f.copy()
        return m


class VModel(Model):
    def __init__(self, rng, obs, stateful=False, transform=None, pscale=1):
        self.obs, self.stateful, self.transform, self.pscale = obs, stateful, transform, pscale
        self.shapes = {'out': ()}
        g = _hk(self.shapes, obs.dim, 0, stateful)
        self.f = coax.V(lambda S, is_training: g(S, is_training)['out'], types.SimpleNamespace(
            observation_space=obs.space), value_transform=transform and transform.jax,
            observation_preprocessor=scaled_preprocessor(obs.space, pscale),
            random_seed=int(rng.integers(2 ** 31)))
        self.randomize(rng)

    def raw(self, S, training=False, **kw):
        return self.twin(self.obs.feat(S) * self.pscale, None, training, **kw)['out']


class QModel(Model):
    def __init__(self, rng, obs, act, modeltype=None, stateful=False, transform=None, pscale=1):
        self.pscale = pscale
        self.obs, self.act, self.stateful, self.transform = obs, act, stateful, transform
        self.modeltype = modeltype or (1 if act.kind == 'box' else int(rng.integers(1, 3)))
        kw = dict(action_preprocessor=act.pre, value_transform=transform and transform.jax,
                  observation_preprocessor=scaled_preprocessor(obs.space, pscale),
                  random_seed=int(rng.integers(2 ** 31)))
        if self.modeltype == 1:
            self.shapes = {'out': ()}
            g = _hk(self.shapes, obs.dim, act.dim, stateful)
            self.f = coax.Q(lambda S, A, is_training: g(S, A, is_training)['out'], env(obs, act), **kw)
        else:
            self.shapes = {'out': (act.n,)}
            g = _hk(self.shapes, obs.dim, 0, stateful)
            self.f = coax.Q(lambda S, is_training: g(S, is_training)['out'], env(obs, act), **kw)
        self.randomize(rng)

    def raw1(self, S, Af, training=False, **kw):
        """q at action features Af (one-hot rows or raw reals), in the transformed space."""
        X = self.obs.feat(S) * self.pscale
        if self.modeltype == 1:
            return self.twin(X, Af, training, **kw)['out']
        return (self.twin(X, None, training, **kw)['out'] * Af).sum(1)

    def raw2(self, S, training=False, **kw):
        X = self.obs.feat(S) * self.pscale
        if self.modeltype == 2:
            return self.twin(X, None, training, **kw)['out']
        e = onp.eye(self.act.n)
        return onp.stack([self.twin(X, onp.repeat(e[a:a + 1], len(X), 0), training, **kw)['out']
                          for a in range(self.act.n)], 1)


class PiModel(Model):
    def __init__(self, rng, obs, act, stateful=False, logvar=None, pscale=1):
        self.pscale = pscale
        self.obs, self.act, self.stateful, self.logvar = obs, act, stateful, logvar
        if act.kind == 'disc':
            self.shapes = {'logits': (act.n,)}
            g = _hk(self.shapes, obs.dim, 0, stateful)

            def func(S, is_training):
                return g(S, is_training)
        else:
            self.shapes = {'mu': (act.dim,), 'logvar': (act.dim,)}
            g = _hk(self.shapes, obs.dim, 0, stateful)

            def func(S, is_training):
                out = g(S, is_training)
                if logvar is not None:
                    out['logvar'] = out['logvar'] * 0 + logvar
                return out
        self.f = coax.Policy(func, env(obs, act), observation_preprocessor=scaled_preprocessor(obs.space, pscale),
                             random_seed=int(rng.integers(2 ** 31)))
        self.randomize(rng)

    def dist(self, S, training=False, **kw):
        out = self.twin(self.obs.feat(S) * self.pscale, None, training, **kw)
        if self.logvar is not None:
            out['logvar'] = out['logvar'] * 0 + self.logvar
        return out

    def entropy(self, S, **kw):
        d = self.dist(S, **kw)
        if self.act.kind == 'disc':
            lp = log_softmax(d['logits'])
            return -(onp.exp(lp) * lp).sum(1)
        lv = onp.clip(d['logvar'], -20, 20)
        return 0.5 * (lv + onp.log(2 * onp.pi) + 1).sum(1)

    def kl_default(self, S, **kw):
        d = self.dist(S, **kw)
        if self.act.kind == 'disc':
            lp = log_softmax(d['logits'])
            return (onp.exp(lp) * (lp + onp.log(self.act.n))).sum(1)
        lv = onp.clip(d['logvar'], -20, 20)
        return 0.5 * (onp.exp(lv) + d['mu'] ** 2 - 1 - lv).sum(1)

    def logp(self, S, Af, **kw):
        d = self.dist(S, **kw)
        if self.act.kind == 'disc':
            return (log_softmax(d['logits']) * Af).sum(1)
        lv = onp.clip(d['logvar'], -20, 20)
        return -0.5 * (onp.log(2 * onp.pi) + lv + (Af - d['mu']) ** 2 * onp.exp(-lv)).sum(1)


class DistModel(Model):
    """StochasticV (act=None) or StochasticQ, categorical or quantile."""
    def __init__(self, rng, obs, act=None, modeltype=None, stateful=False, transform=None, kind=None,
                 bins=None, pscale=1, like=None):
        self.pscale = pscale
        self.obs, self.act, self.stateful, self.transform = obs, act, stateful, transform
        self.kind = kind or pick(rng, ['cat', 'quant'])
        self.bins = bins or int(rng.integers(2, 9))
        self.modeltype = None
        if act is not None:
            self.modeltype = modeltype or (1 if act.kind == 'box' else int(rng.integers(1, 3)))
        self.range = (float(rng.uniform(-6, -1)), float(rng.uniform(1, 6))) if self.kind == 'cat' else None
        if like is not None:
            self.range = like.range
        key = 'logits' if self.kind == 'cat' else 'values'
        shape = (act.n, self.bins) if self.modeltype == 2 else (self.bins,)
        self.shapes = {key: shape}
        self.fractions = like.fractions if like is not None else onp.sort(rng.uniform(0.02, 0.98, self.bins)).astype('float32')
        fr = jnp.asarray(self.fractions)
        g = _hk(self.shapes, obs.dim, act.dim if self.modeltype == 1 else 0, stateful)

        def finish(out):
            if self.kind == 'quant':
                out['quantile_fractions'] = jnp.broadcast_to(fr, out['values'].shape)
            return out

        kw = dict(observation_preprocessor=scaled_preprocessor(obs.space, pscale),
                  value_range=self.range, num_bins=self.bins, value_transform=transform and transform.jax,
                  random_seed=int(rng.integers(2 ** 31)))
        if act is None:
            self.f = coax.StochasticV(lambda S, is_training: finish(g(S, is_training)),
                                      env(obs, Act(rng, 'disc')), **kw)
        elif self.modeltype == 1:
            self.f = coax.StochasticQ(lambda S, A, is_training: finish(g(S, A, is_training)),
                                      env(obs, act), action_preprocessor=act.pre, **kw)
        else:
            self.f = coax.StochasticQ(lambda S, is_training: finish(g(S, is_training)),
                                      env(obs, act), action_preprocessor=act.pre, **kw)
        self.randomize(rng, 1.2)
        f = transform.f if transform else (lambda x: x)
        if self.kind == 'cat':
            lo, hi = f(self.range[0]), f(self.range[1])
            self.atoms = lo + (onp.arange(self.bins) + 0.5) * (hi - lo) / self.bins

    @property
    def key(self):
        return 'logits' if self.kind == 'cat' else 'values'

    def d1(self, S, Af=None, training=False, **kw):
        """dist params (batch, bins) at given action features (one-hot rows for discrete)."""
        X = self.obs.feat(S) * self.pscale
        if self.modeltype == 2:
            out = self.twin(X, None, training, **kw)[self.key]
            return onp.einsum('bak,ba->bk', out, Af)
        return self.twin(X, Af if self.modeltype == 1 else None, training, **kw)[self.key]

    def d2(self, S, training=False, **kw):
        """dist params (batch, n, bins)."""
        e = onp.eye(self.act.n)
        b = len(self.obs.feat(S))
        return onp.stack([self.d1(S, onp.repeat(e[a:a + 1], b, 0), training, **kw)
                          for a in range(self.act.n)], 1)

    def mean(self, d):
        """mean (in the transformed space) of dist params (..., bins)."""
        if self.kind == 'cat':
            return onp.exp(log_softmax(d)) @ self.atoms
        return d.mean(-1)


# ---------------------------------------------------------------- misc numerics
def log_softmax(z):
    z = z - z.max(-1, keepdims=True)
    return z - onp.log(onp.exp(z).sum(-1, keepdims=True))


class Transform:
    """A value transform with an independent numpy twin."""
    def __init__(self, rng, kind=None):
        self.kind = kind or pick(rng, ['log', 'affine', 'cube'])
        if self.kind == 'log':
            c = float(rng.uniform(0.5, 4))
            self.jax = coax.value_transforms.LogTransform(c)
            self.f = lambda x: onp.sign(x) * c * onp.log1p(onp.abs(x) / c)
            self.f_inv = lambda y: onp.sign(y) * c * onp.expm1(onp.abs(y) / c)
        elif self.kind == 'affine':
            a, b = float(rng.uniform(0.3, 2)), float(rng.uniform(-1, 1))
            self.jax = (lambda x: a * x + b, lambda y: (y - b) / a)
            self.f, self.f_inv = self.jax
        else:
            self.jax = (lambda x: jnp.arcsinh(x), lambda y: jnp.sinh(y))
            self.f, self.f_inv = onp.arcsinh, onp.sinh


class Identity:
    kind = 'none'
    jax = None

    @staticmethod
    def f(x):
        return x

    f_inv = f


def batch(rng, obs, act, size, gamma=None, rscale=1):
    """A random TransitionBatch (numpy), with terminal and non-terminal rows and extreme weights."""
    from coax.reward_tracing import TransitionBatch
    n = rng.integers(1, 4, size)
    gamma = pick(rng, [0.9, 0.9, 0.9, 1.0, 0.99, 0.3]) if gamma is None else gamma
    In = onp.where(rng.random(size) < 0.3, 0.0, gamma ** n).astype('float32')
    W = onp.exp(rng.normal(0, 1.5, size)).astype('float32')
    W[rng.random(size) < 0.2] = 0.01
    W[rng.random(size) < 0.2] = 30.0
    return TransitionBatch(
        S=obs.sample(rng, size), A=act.sample(rng, size),
        logP=(-rng.exponential(1, size)).astype('float32'),
        Rn=(rng.normal(0, 1.5, size) * rscale).astype('float32'), In=In,
        S_next=obs.sample(rng, size), A_next=act.sample(rng, size),
        logP_next=(-rng.exponential(1, size)).astype('float32'),
        W=W, idx=onp.arange(size), extra_info=None)


# ---------------------------------------------------------------- functions of (s, a) with any outputs
def logit(p):
    return onp.log(p) - onp.log1p(-p)


def sigmoid(x):
    return 0.5 * (1 + onp.tanh(0.5 * x))


class SAModel(Model):
    """A function of (s,a) or s -> all a, with named outputs arranged by ``build`` into the output
    tree of ``cls``.  ``pre``: 'default' or 'dist' observation preprocessing."""
    def __init__(self, rng, cls, obs, act, shapes, build, modeltype=None, stateful=False, pre='default',
                 seed=None, **kw):
        self.obs, self.act, self.stateful = obs, act, stateful
        self.pre = 'default' if obs.kind == 'mbin' else pre
        self.modeltype = modeltype or (1 if act.kind == 'box' else int(rng.integers(1, 3)))
        self.names = dict(shapes)
        self.shapes = {k: ((act.n,) + tuple(s) if self.modeltype == 2 else tuple(s))
                       for k, s in shapes.items()}
        g = _hk(self.shapes, obs.dim, act.dim if self.modeltype == 1 else 0, stateful)
        kw.setdefault('random_seed', int(rng.integers(2 ** 31)) if seed is None else seed)
        kw['action_preprocessor'] = act.pre
        kw['observation_preprocessor'] = self.preprocessor()
        if self.modeltype == 1:
            self.f = cls(lambda S, A, is_training: build(g(S, A, is_training)), env(obs, act), **kw)
        else:
            self.f = cls(lambda S, is_training: build(g(S, is_training)), env(obs, act), **kw)
        self.randomize(rng)

    def preprocessor(self):
        if self.pre == 'default':
            return coax.utils.default_preprocessor(self.obs.space)
        return coax.proba_dists.ProbaDist(self.obs.space).preprocess_variate

    def feat(self, S):
        if self.pre == 'default':
            return self.obs.feat(S)
        return self.obs.dist_feat(S)

    def at(self, S, Af, training=False, X=None, **kw):
        """{name: (batch, *shape)} at action features Af."""
        X = self.feat(S) if X is None else X
        if self.modeltype == 1:
            return self.twin(X, Af, training, **kw)
        out = self.twin(X, None, training, **kw)
        return {k: onp.einsum('ba...,ba->b...', v, Af) for k, v in out.items()}

    def all(self, S, training=False, X=None, **kw):
        """{name: (batch, n, *shape)}."""
        X = self.feat(S) if X is None else X
        e = onp.eye(self.act.n)
        outs = [self.at(None, onp.repeat(e[a:a + 1], len(X), 0), training, X=X, **kw)
                for a in range(self.act.n)]
        return {k: onp.stack([o[k] for o in outs], 1) for k in outs[0]}


def obs_outputs(obs, stochastic):
    """(shapes, build) of a transition model over ``obs``."""
    box = {'mu': obs.shape, 'logvar': obs.shape} if stochastic else {'mu': obs.shape}
    disc = {'logits': (obs.n,)}
    if stochastic:
        if obs.kind == 'box':
            return box, lambda o: {'mu': o['mu'], 'logvar': o['logvar']}
        if obs.kind == 'disc':
            return disc, lambda o: {'logits': o['logits']}
        return {**box, **disc}, lambda o: {'a': {'mu': o['mu'], 'logvar': o['logvar']},
                                           'b': {'logits': o['logits']}}
    if obs.kind == 'box':
        return box, lambda o: o['mu']
    if obs.kind == 'disc':
        return disc, lambda o: o['logits']
    return {**box, **disc}, lambda o: {'a': o['mu'], 'b': o['logits']}
