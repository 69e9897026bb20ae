"""C07: the TD target of every algorithm is the documented one."""
import numpy as onp

from vmon import scenario
from vmon.gen import pick
from vmon.models import batch
from vmon.td import ALGOS, Setup


def one(m, algo):
    rng = m.rng
    su = Setup(rng, algo, loss=pick(rng, ['mse', 'mse', 'mse', 'huber', 'default']))
    m.log(su.describe())
    size = int(pick(rng, [1, 4, 4, 7, 33]))
    name = type(su.td).__name__
    for round_ in range(5 if su.act.kind == 'disc' else 4):
        if round_:
            su.randomize(rng)               # targets follow the *current* parameters
            if su.reg is not None:
                su.reg.beta = float(rng.uniform(0.05, 2))
        if round_ == 4:
            su.tie()                        # zero-initialised functions: all actions equally good
            m.ev('indifferent')
        tb = batch(rng, su.obs, su.act, size, rscale=pick(rng, [1, 1, 1, 0, 25]))
        if round_ == 2:
            tb.In = onp.zeros_like(tb.In)
        G, ok = su.target(tb)
        Y = su.prediction(tb)
        want = su.error(G, Y)
        got = onp.asarray(su.td.td_error(tb), 'float64')
        m.eq(got.shape, (size,), 'one-error-per-transition')
        tol = 2e-3 * (1 + onp.abs(G))
        bad = ok & ~(onp.abs(got - want) <= tol)
        m.true(not bad.any(), 'td-error', f'got={got} want={want} G={G} Y={Y} In={tb.In}', su.describe())
        m.ev('td-errors', int(ok.sum()))
        m.ev('terminal', int((tb.In == 0).sum()))
        m.ev('bootstrapped', int((tb.In > 0).sum()))
        if ok.all():
            grads, state, metrics, err = su.td.grads_and_metrics(tb)
            m.true(onp.all(onp.abs(onp.asarray(err) - want) <= tol), 'update-reports-the-same-td-error', err, want)
            m.close(metrics[f'{name}/loss'], su.loss(G, Y, tb.W), 'weighted-loss', su.describe(),
                    rtol=5e-3, atol=5e-3)
            m.close(metrics[f'{name}/td_error'], (onp.clip(tb.W, .1, 10) * want).mean(), 'weighted-td-error-metric',
                    rtol=5e-3, atol=2e-2)
            m.ev('losses')
        m.nontrivial(su.describe(), size, round_)
    m.sample(config=su.describe(), G=G, prediction=Y)


def _make(algo, quick, thorough):
    def case(m):
        one(m, algo)
    case.__name__ = 'td_' + algo
    scenario(quick=quick, thorough=thorough, floor={"td-errors": 500, "terminal": 200, "bootstrapped": 200, "losses": 100, "indifferent": 40})(case)


for _a in ALGOS:
    _make(_a, 24, 500)
