"""Error of a reduced solution against the full one."""
import numpy as np
import pandas as pd

RULE = ('random pairs of solutions on different time grids, random outputs and times (grid points, ends and between): '
        'every error measure against scalar interpolation and the mixed relative error; scaling, order of the times and '
        'outputs, replaced full solution and memory between calls; then things which are no solution, outputs which are '
        'missing, times outside; non-trivial: two different solutions and at least two outputs and times')
QUICK, THOROUGH = 1500, 60000
MIN_EVENTS = {'errors compared': 9000, 'maxima and rms compared': 2500, 'identical solutions': 500, 'refused': 1500,
              'reset': 254, 'scaled': 500}
OUT = ['Ar', 'Ar+', 'O2', 'e', 'Te', 'p']


def gen_sol(rng, outputs, t_end):
    n = rng.choice([2, 3, rng.randint(4, 40)])
    t = sorted({0., t_end} | {rng.uniform(0, t_end) for _ in range(n - 2)})
    d = {'t': t}
    for o in outputs:
        s = 10 ** rng.uniform(-3, 20)
        d[o] = [s * 10 ** rng.uniform(-2, 2) if rng.random() < .7 else s for _ in t]
    items = list(d.items())
    if rng.random() < .3:
        rng.shuffle(items)
    df = pd.DataFrame(dict(items))
    if rng.random() < .3:
        df.index = range(5, 5 + len(df))
    return df


def at(df, o, time):
    t, v = list(df['t']), list(df[o])
    for k in range(len(t) - 1):
        if t[k] <= time <= t[k + 1]:
            w = (time - t[k]) / (t[k + 1] - t[k])
            return v[k] * (1 - w) + v[k + 1] * w
    raise ValueError(time)


def errors(full, red, o, times):
    f = [at(full, o, x) for x in times]
    r = [at(red, o, x) for x in times]
    top = max(f)
    return [2 * (b - a) / (a + top) for a, b in zip(f, r)]


def compare(m, rng, sd, full, red, outs, times):
    box = rng.choice([list, tuple, np.array])
    allerr = []
    for o in outs:
        exp = errors(full, red, o, times)
        got = sd.get_output_errors(red, o, box(times))
        m.check(len(got) == len(exp), 'number of errors')
        for a, b in zip(got, exp):
            m.event('errors compared')
            m.check(abs(a - b) <= 1e-9 * (1 + abs(b)), 'error of an output', lambda: (o, times, list(got), exp))
        mx, rms = max(abs(x) for x in exp), (sum(x * x for x in exp) / len(exp)) ** .5
        m.event('maxima and rms compared', 2)
        g = sd.get_output_error_max(red, o, box(times))
        m.check(abs(g - mx) <= 1e-9 * (1 + mx), 'maximal error of an output', lambda: (o, g, mx))
        g = sd.get_output_error_rms(red, o, box(times))
        m.check(abs(g - rms) <= 1e-9 * (1 + rms), 'rms error of an output', lambda: (o, g, rms))
        allerr.append((mx, rms))
    if outs:
        m.event('maxima and rms compared', 2)
        mx, rms = max(a for a, _ in allerr), (sum(b * b for _, b in allerr) / len(allerr)) ** .5
        g = sd.get_error_max(red, rng.choice([list, tuple])(outs), box(times))
        m.check(abs(g - mx) <= 1e-9 * (1 + mx), 'maximal error', lambda: (g, mx))
        g = sd.get_error_rms(red, rng.choice([list, tuple])(outs), box(times))
        m.check(abs(g - rms) <= 1e-9 * (1 + rms), 'rms error', lambda: (g, rms))


def case(m, rng, i):
    from pygmo_fwork.optichem.errors import SolutionsDiff
    t_end = 10 ** rng.uniform(-6, 2)
    outs = rng.sample(OUT, rng.randint(1, 4))
    full, red, other = gen_sol(rng, outs, t_end), gen_sol(rng, outs, t_end), gen_sol(rng, outs, t_end)
    times = [rng.choice([0., t_end, rng.uniform(0, t_end), rng.choice(list(full['t'])), rng.choice(list(red['t']))])
             for _ in range(rng.randint(1, 6))]
    m.note(full=full.to_dict('list'), red=red.to_dict('list'), outputs=outs, times=times)
    keep = full.copy(), red.copy()
    sd = SolutionsDiff(full)
    compare(m, rng, sd, full, red, outs, times)
    compare(m, rng, sd, full, other, outs, times[:1])
    compare(m, rng, sd, full, red, list(reversed(outs)), list(reversed(times)))
    m.event('identical solutions')
    m.check(sd.get_error_max(full.copy(), outs, times) == 0 and sd.get_error_rms(full, outs, times) == 0,
            'error of a solution against itself')
    # units do not matter
    s = 10 ** rng.uniform(-10, 10)
    f2, r2 = full.copy(), red.copy()
    for o in outs:
        f2[o], r2[o] = f2[o] * s, r2[o] * s
    m.event('scaled')
    a, b = sd.get_error_max(red, outs, times), SolutionsDiff(f2).get_error_max(r2, outs, times)
    m.check(abs(a - b) <= 1e-8 * (1 + a), 'error depends on the units', lambda: (a, b))
    if rng.random() < .5:
        m.event('reset')
        sd.reset(other)
        compare(m, rng, sd, other, red, outs, times)
        m.check(sd.get_error_max(other, outs, times) == 0, 'error after the full solution was replaced')
    else:
        other = full
    # not a solution
    for bad in (None, full.to_dict('list'), full.values, full.drop(columns='t')):
        m.raises(AssertionError, 'something which is no solution', SolutionsDiff, bad)
        m.raises(AssertionError, 'something which is no solution', sd.reset, bad)
        m.event('refused', 2)
    m.check(sd.get_error_max(other, outs, times) == 0, 'refused solution changed the full one')
    miss = next(o for o in OUT if o not in outs)
    for tt in (-1e-9 * t_end, t_end * 1.01, np.inf, -1.):
        m.event('refused')
        m.raises(AssertionError, 'time outside of the solution', sd.get_error_rms, red, outs, times + [tt])
        m.raises(AssertionError, 'time outside of the solution', sd.get_output_error_max, red, outs[0], [tt])
    m.raises(AssertionError, 'output which is missing', sd.get_output_errors, red, miss, times)
    m.raises(AssertionError, 'output which is missing', sd.get_error_max, red, outs + [miss], times)
    m.raises(AssertionError, 'output missing in the reduced solution', sd.get_error_max,
             red.drop(columns=outs[0]), outs, times)
    m.raises(AssertionError, 'reduced solution which is too short', sd.get_error_max, red.iloc[:-1], outs, times + [t_end])
    m.check(full.equals(keep[0]) and red.equals(keep[1]), 'solutions were changed')
    if len(outs) > 1 and len(times) > 1:
        m.signature(full.to_dict('list'), red.to_dict('list'), times)
        m.sample({'outputs': outs, 'times': times, 'error': float(a)})
