"""C08: distributional TD: projected targets, greedy choices, weighted losses."""
import numpy as onp

from vmon import scenario
from vmon.dtd import ALGOS, DSetup
from vmon.gen import pick
from vmon.models import batch


def one(m, algo):
    rng = m.rng
    su = DSetup(rng, algo)
    m.log(su.describe())
    size, name = int(pick(rng, [1, 4, 4, 6, 20])), type(su.td).__name__
    for round_ in range(5 if su.act.kind == 'disc' else 4):
        if round_:
            su.randomize(rng)
            if su.reg is not None:
                su.reg.beta = float(rng.uniform(0.05, 1))
        if round_ == 4:
            su.tie()                        # zero-initialised functions: all actions equally good
            m.ev('indifferent')
        tb = batch(rng, su.obs, su.act, size, rscale=pick(rng, [1, 1, 1, 0, 8]))
        if round_ == 2:
            tb.In = onp.zeros_like(tb.In)
        t, ok = su.target(tb)
        d = su.prediction(tb)
        want = su.target_mean(t) - su.main.mean(d)
        got = onp.asarray(su.td.td_error(tb), 'float64')
        m.eq(got.shape, (size,), 'one-error-per-transition')
        tol = 3e-3 * (1 + onp.abs(su.target_mean(t)))
        bad = ok & ~(onp.abs(got - want) <= tol)
        m.true(not bad.any(), 'td-error', f'got={got} want={want} In={tb.In} Rn={tb.Rn}', su.describe())
        m.ev('td-errors', int(ok.sum()))
        m.ev('terminal', int((tb.In == 0).sum()))
        if ok.all():
            grads, state, metrics, err = su.td.grads_and_metrics(tb)
            m.true(onp.all(onp.abs(onp.asarray(err) - want) <= tol), 'update-reports-the-same-td-error', err, want)
            m.close(metrics[f'{name}/loss'], su.loss(t, d, tb.W), 'weighted-distributional-loss', su.describe(),
                    rtol=4e-3, atol=4e-3)
            m.ev('losses')
        m.ev(su.kind)
        m.nontrivial(su.describe(), size, round_)
    m.sample(config=su.describe(), target_mean=su.target_mean(t))


def _make(algo, quick, thorough):
    def case(m):
        one(m, algo)
    case.__name__ = 'dtd_' + algo
    scenario(quick=quick, thorough=thorough, floor={'td-errors': 500, 'terminal': 150, 'losses': 100, 'indifferent': 40,
                                                    'cat': 100, 'quant': 50})(case)


for _a in ALGOS:
    _make(_a, 20, 400)
