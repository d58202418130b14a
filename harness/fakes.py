"""A stand-in for the stiff solver: quick, smooth, positive, and sensitive to every coefficient of the equations.

Everything around it (building the equations, post-processing, logging) is the real code. `plan(k)` says what happens in
the k-th solution: None (a solution), 'value' (ValueError of the solver), 'fail' (an unsuccessful solution), 'interrupt'.
"""
import contextlib
import time

import numpy as np


class Fake:
    def __init__(self, plan=None, delay=None):
        self.plan, self.delay, self.count = plan, delay, 0

    def __call__(self, func, span, y0, **kw):
        from scipy.integrate._ivp.ivp import OdeResult
        k = self.count
        self.count += 1
        what = self.plan(k) if self.plan else None
        if self.delay:
            time.sleep(self.delay(k))
        if what == 'value':
            raise ValueError('array must not contain infs or NaNs (injected)')
        if what == 'interrupt':
            raise KeyboardInterrupt
        t_end = span[1]
        t = np.array([0., .05, .2, .3, .45, .6, .8, 1.]) * t_end
        y0 = np.array(y0, dtype=float)
        rate = np.arcsinh(np.nan_to_num(np.array(func(0., y0.copy())) / y0 * t_end)) / 10
        # a second evaluation in another state, for the coefficients which do not matter in the initial one
        y1 = y0 * np.exp(rate * .5)
        y1[:-1] = np.maximum(y1[:-1], 1e8)
        rate2 = np.arcsinh(np.nan_to_num(np.array(func(0., y1.copy())) / y1 * t_end)) / 10
        y = y0[:, None] * np.exp(rate[:, None] * t[None, :] / t_end + rate2[:, None] * (t[None, :] / t_end) ** 2)
        ok = what != 'fail'
        return OdeResult(t=t, y=y, sol=None, t_events=None, y_events=None, nfev=2, njev=0, nlu=0,
                         status=0 if ok else -1, message='done' if ok else 'step too small (injected)', success=ok)


@contextlib.contextmanager
def solver(plan=None, delay=None):
    import scipy.integrate
    from pygmo_fwork.pygmol import model
    fake = Fake(plan, delay)
    places = [(mod, mod.solve_ivp) for mod in (scipy.integrate, model) if hasattr(mod, 'solve_ivp')]
    for mod, _ in places:
        mod.solve_ivp = fake
    try:
        yield fake
    finally:
        for mod, real in places:
            mod.solve_ivp = real


@contextlib.contextmanager
def recorded_runs(record):
    """Calls record(global model, kwargs, error or None) after every run of a global model."""
    from pygmo_fwork.global_model import GlobalModel
    real = GlobalModel.run

    def run(self, *a, **kw):
        try:
            res = real(self, *a, **kw)
        except BaseException as e:
            record(self, kw, e)
            raise
        record(self, kw, None)
        return res
    GlobalModel.run = run
    try:
        yield
    finally:
        GlobalModel.run = real


def interp(ts, vs, t):
    """Linear interpolation, written out."""
    if t == ts[0]:
        return vs[0]
    for k in range(len(ts) - 1):
        if ts[k] <= t <= ts[k + 1]:
            if ts[k + 1] == ts[k]:
                return vs[k + 1]
            w = (t - ts[k]) / (ts[k + 1] - ts[k])
            return vs[k] + (vs[k + 1] - vs[k]) * w
    raise ValueError('outside')
