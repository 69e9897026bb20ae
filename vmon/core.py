"""Runtime-monitoring core: scenarios, per-case monitors, verdicts.

A *scenario* drives the real code of /repo with a seeded, generated workload and reports what it
observes to a ``Mon``; the ``Mon`` evaluates the oracle on those observations.  A failed oracle
raises ``Violation``, which ends the case and is turned into a replayable witness by the runner.
"""
import collections
import hashlib
import zlib

import numpy as onp

SCENARIOS = collections.OrderedDict()


class Violation(Exception):
    def __init__(self, rule, detail, key=None):
        super().__init__(f'{rule}: {detail}')
        self.rule, self.detail, self.key = rule, detail, key


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never a verdict)."""


class scenario:
    """Register a workload: ``quick``/``thorough`` are numbers of cases, ``floor`` the minimum
    number of monitor events (over the whole run) below which the run is inconclusive."""

    def __init__(self, quick, thorough, floor=None):
        self.quick, self.thorough, self.floor = quick, thorough, dict(floor or {})

    def __call__(self, func):
        self.func, self.name = func, func.__name__
        assert self.name not in SCENARIOS, self.name
        SCENARIOS[self.name] = self
        return func


def case_rng(seed, prop, scen, index):
    return onp.random.default_rng(
        [int(seed) & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(scen.encode()), int(index)])


def show(x, limit=1200):
    with onp.printoptions(precision=9, threshold=60, linewidth=140):
        s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


class Mon:
    def __init__(self, prop, scen, index, seed, tier):
        self.prop, self.scen, self.index, self.seed, self.tier = prop, scen, index, seed, tier
        self.thorough = tier == 'thorough'
        self.rng = case_rng(seed, prop, scen, index)
        self.events = collections.Counter()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.trace = collections.deque(maxlen=200)
        self.known = []
        self.quiet_until = None

    # ------------------------------------------------------------------ recording
    def ev(self, name, n=1):
        self.events[name] += int(n)

    def log(self, *args):
        self.trace.append(' '.join(a if isinstance(a, str) else show(a, 300) for a in args))

    def nontrivial(self, *key):
        self.keys.add(hashlib.md5(repr((self.scen,) + key).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append({'scenario': self.scen, 'index': self.index,
                                 **{k: show(v, 400) for k, v in kw.items()}})

    # ------------------------------------------------------------------ oracles
    def fail(self, rule, detail='', key=None):
        raise Violation(rule, detail if isinstance(detail, str) else show(detail), key)

    def true(self, cond, rule, *detail):
        self.evaluations += 1
        self.events['oracle:' + rule] += 1
        if not bool(cond):
            raise Violation(rule, '; '.join(d if isinstance(d, str) else show(d) for d in detail))

    def eq(self, got, want, rule, *detail):
        """Exact equality (python objects or arrays; array shapes must agree)."""
        if isinstance(got, (onp.ndarray, onp.generic)) or isinstance(want, (onp.ndarray, onp.generic)) \
                or type(got).__module__.startswith('jax'):
            g, w = onp.asarray(got), onp.asarray(want)
            ok = g.shape == w.shape and bool(onp.all((g == w) | ((g != g) & (w != w))))
        else:
            ok = got == want
        self.true(ok, rule, f'got={show(got)} want={show(want)}', *detail)

    def close(self, got, want, rule, *detail, rtol=2e-4, atol=2e-5):
        g, w = onp.asarray(got, dtype='float64'), onp.asarray(want, dtype='float64')
        ok = g.shape == w.shape
        if ok:
            with onp.errstate(all='ignore'):
                d = onp.abs(g - w)
                ok = bool(onp.all((d <= atol + rtol * onp.abs(w)) | (g == w)
                                  | (onp.isnan(g) & onp.isnan(w))))
        self.true(ok, rule, f'got={show(got)} want={show(want)}', *detail)

    def tree_eq(self, got, want, rule, *detail):
        import jax
        gl, gt = jax.tree_util.tree_flatten(got)
        wl, wt = jax.tree_util.tree_flatten(want)
        self.true(gt == wt, rule + ':structure', f'got={gt} want={wt}', *detail)
        for g, w in zip(gl, wl):
            self.eq(onp.asarray(g), onp.asarray(w), rule, *detail)

    def tree_close(self, got, want, rule, *detail, rtol=2e-4, atol=2e-5):
        import jax
        gl, gt = jax.tree_util.tree_flatten(got)
        wl, wt = jax.tree_util.tree_flatten(want)
        self.true(gt == wt, rule + ':structure', f'got={gt} want={wt}', *detail)
        for g, w in zip(gl, wl):
            self.close(onp.asarray(g), onp.asarray(w), rule, *detail, rtol=rtol, atol=atol)

    def raises(self, exc, fn, rule, *detail):
        try:
            out = fn()
        except exc:
            self.true(True, rule)
            return
        except Exception as e:
            self.true(False, rule, f'raised {type(e).__name__}: {e}', *detail)
            return
        self.true(False, rule, f'returned {show(out)} instead of raising', *detail)
