"""Post-processing of solutions: compression, convergence and comparison of runs."""
import contextlib
import io
import os
import shutil

import numpy as np
import pandas as pd

RULE = ('random time-dependent frames (growing, decaying, oscillating, stepped, constant, zero and negative columns, any '
        'row labels, few or many rows) are compressed with random thresholds, checked for convergence in random windows '
        'and, written as logs of several runs, compared; every dropped and kept row is judged against the last kept one; '
        'non-trivial: a frame from which some rows were dropped and some kept')
QUICK, THOROUGH = 1800, 30000
MIN_EVENTS = {'rows dropped': 3000, 'rows kept': 2000, 'convergence decided': 800, 'converged': 250,
              'not converged': 250, 'runs compared': 90, 'negative columns': 1000, 'labels with gaps': 80, 'warnings compared': 150, 'starts later': 200, 'convergence to zero': 40}
TOL = 1e-9


def gen_frame(m, rng, labels=None, n=None):
    n = n or rng.choice([1, 2, 3, rng.randint(4, 12), rng.randint(13, 120)])
    kind = rng.randrange(3)
    if kind == 0:
        t = np.cumsum([10 ** rng.uniform(-3, 0) for _ in range(n)])
    elif kind == 1:
        t = np.logspace(-9, rng.uniform(-3, 1), n)
    else:
        t = np.linspace(0, 10 ** rng.uniform(-4, 2), n) if n > 1 else np.array([1.])
    t = t - (t[0] if rng.random() < .7 else 0.)
    if rng.random() < .2:       # the end of a longer run
        t = t + (t[-1] or 1.) * rng.choice([.3, 1., 5., 20.])
        m.event('starts later')
    labels = labels or rng.sample(['Ar', 'Ar+', 'Ar*', 'O2', 'O-', 'e', 'Te', 'Tg', 'p', 1, 2, 17], rng.randint(1, 6))
    d = {'t': t}
    x = np.linspace(0, 1, n)
    for lab in labels:
        scale = 10 ** rng.uniform(-5, 20)
        k = rng.randrange(7)
        if k == 0:
            v = np.full(n, scale)
        elif k == 1:
            v = scale * np.exp(-x * rng.uniform(0, 8))
        elif k == 2:
            v = scale * (1 - .99 * np.exp(-x * rng.uniform(1, 30)))
        elif k == 3:
            v = scale * (1.1 + np.sin(x * rng.uniform(1, 40)))
        elif k == 4:
            v = np.where(x > rng.random(), scale, 3 * scale)
        elif k == 5:
            v = np.array([scale * rng.uniform(.9, 1.1) for _ in range(n)])
        else:
            v = np.zeros(n)
            if rng.random() < .5:
                v[rng.randrange(n):] = scale
            else:               # which is gone at the end
                v = scale - v
        if rng.random() < .1:
            v[-1] = 0.
        if rng.random() < .3:
            v = -v
            m.event('negative columns')
        d[lab] = v
    df = pd.DataFrame(d)
    k = rng.random()
    if k < .2 and n > 1:        # as of an already compressed log
        df.index = sorted(rng.sample(range(3 * n), n))
        m.event('labels with gaps')
    elif k < .25:
        df.index = ['row{}'.format(i) for i in range(n)]
    return df


def close(front, row, cols, thr, dt_min):
    """True, False or None (too near to the threshold)."""
    dt = row['t'] - front['t']
    if abs(dt - dt_min) <= TOL * max(abs(row['t']), dt_min):
        return None
    if dt < dt_min:
        return True
    res = True
    for c in cols:
        a, b = front[c], row[c]
        d = abs(b - a)
        if d == 0:
            if thr <= 0:
                return None
            continue
        if a == 0:
            return False
        rel = d / abs(a)
        if abs(rel - thr) <= TOL:
            res = None if res else res
        elif rel >= thr:
            return False
    return res


def check_compressed(m, full, comp, thr, step):
    cols = [c for c in full.columns if c != 't']
    m.check(list(comp.columns) == list(full.columns), 'compressed solution: columns')
    pos = []
    want = list(comp.index)
    lab = list(full.index)
    k = 0
    for w in want:
        while k < len(lab) and lab[k] != w:
            k += 1
        m.check(k < len(lab), 'compressed solution: rows which are not of the full one', lambda: (want, lab))
        pos.append(k)
        k += 1
    m.check(comp.equals(full.iloc[pos]), 'compressed solution: values changed')
    m.check(pos and pos[0] == 0 and pos[-1] == len(full) - 1, 'compressed solution: first or last row lost', pos)
    rows = full.to_dict('records')
    dt_min = rows[-1]['t'] * step
    front, keep = 0, set(pos)
    for i in range(1, len(rows) - 1):
        c = close(rows[front], rows[i], cols, thr, dt_min)
        if i in keep:
            m.event('rows kept')
            m.check(c is not True, 'compressed solution: row kept which is close to the one before', lambda: (rows[front], rows[i], thr, dt_min))
            front = i
        else:
            m.event('rows dropped')
            m.check(c is not False, 'compressed solution: row dropped which differs from the one before',
                    lambda: (rows[front], rows[i], thr, dt_min))
    return len(rows) - len(pos), len(pos) - 2


def check_convergency(m, rng, df):
    from pygmo_fwork.global_model import GlobalModel
    if len(df) < 2:
        return
    eps, win = rng.choice([.1, .01, .5, rng.random()]), rng.choice([.1, .01, .5, rng.random()])
    mp = {'t_end': df['t'].iloc[-1] * rng.choice([1, 1, 2.])}
    keep = df.copy()
    if eps == win == .1 and rng.random() < .5:
        conv = GlobalModel.check_convergency(df, mp)
    else:
        verbose = rng.random() < .4
        with contextlib.redirect_stdout(io.StringIO()) as out:
            conv = GlobalModel.check_convergency(df, mp, eps=eps, timewindow=win, verbose=verbose)
        shown = [c for c in df.columns if c != 't' and 'The {} value changed'.format(c) in out.getvalue()]
        m.check(shown == [c for c in conv.index if not conv[c]] if verbose else not out.getvalue(),
                'warning of outputs which are not converged', lambda: (out.getvalue(), conv.to_dict()))
        m.event('warnings compared', verbose)
        early = 'not reached' in out.getvalue()
        m.check(early == (verbose and mp['t_end'] > 1.5 * df['t'].iloc[-1]), 'warning of an early end', lambda: (out.getvalue(), mp))
    m.check(df.equals(keep), 'convergence check changed the solution')
    cols = [c for c in df.columns if c != 't']
    m.check(list(conv.index) == cols, 'convergence: outputs', lambda: (list(conv.index), cols))
    t = list(df['t'])
    t0 = t[-1] * (1 - win)
    k = max(i for i in range(len(t)) if t[i] <= t0 or i == 0)
    k = min(k, len(t) - 2)
    w = max(0., (t0 - t[k]) / (t[k + 1] - t[k]))
    for c in cols:
        v = list(df[c])
        a, b = v[k] + (v[k + 1] - v[k]) * w, v[-1]
        rel = 0. if a == b else float('inf') if a + b == 0 else abs(2 * (b - a) / (b + a))
        if a == b == 0:
            m.event('convergence of zeros')
        elif b == 0:
            m.event('convergence to zero')
        if rel != float('inf') and abs(rel - eps) <= 1e-6 * (1 + rel):
            continue
        m.event('convergence decided')
        m.event('converged' if rel <= eps else 'not converged')
        m.check(bool(conv[c]) == (rel <= eps), 'convergence of an output', lambda: (c, bool(conv[c]), rel, eps, win))


def check_compare(m, rng):
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.config import Config
    res, other = os.path.join(m.tmp, 'res'), os.path.join(m.tmp, 'o' * rng.choice([3, 50]))
    home, mine = str(Config().get_results_dir('pygmol')), 'compared {}'.format(os.getpid())
    labels = rng.sample(['Ar', 'Ar+', 'Ar*', 'O2', 'O-', 'Na'], 3) + ['e', 'Te', 'Tg', 'p']
    last, runs = {}, []
    for d in (res, other):
        os.mkdir(d)
        for k in range(3):
            os.mkdir(os.path.join(d, 'run_{}'.format(k)))
            for f in ('solution.csv', 'copy.csv'):
                df = gen_frame(m, rng, labels=labels if rng.random() < .8 else labels[:1] + labels[2:])
                df.to_csv(os.path.join(d, 'run_{}'.format(k), f))
                last[d, 'run_{}'.format(k), f] = df.iloc[-1]
    os.makedirs(os.path.join(home, mine), exist_ok=True)
    for f in ('solution.csv', 'copy.csv'):
        df = gen_frame(m, rng, labels=labels)
        df.to_csv(os.path.join(home, mine, f))
        last[home, mine, f] = df.iloc[-1]
    rp = ResultsParser(nominal_results_dir=res)
    for _ in range(rng.randint(1, 5)):
        k = 'run_{}'.format(rng.randrange(3))
        spec, key = rng.choice([(k, (res, k, 'solution.csv')), ((k,), (res, k, 'solution.csv')),
                                ((k, other), (other, k, 'solution.csv')), ((k, 'copy.csv'), (res, k, 'copy.csv')),
                                ((k, other, 'copy.csv'), (other, k, 'copy.csv')), ([k, res], (res, k, 'solution.csv'))])
        if rng.random() < .3:
            back = rng.choice(['pygmol', 'PyGMol', 'PYGMOL'])
            spec, key = rng.choice([((mine, back), (home, mine, 'solution.csv')), ((mine, back, 'copy.csv'), (home, mine, 'copy.csv'))])
            m.event('runs of a backend compared')
        runs.append((spec, key))
    rel = rng.random() < .5
    comp = rp.compare([s for s, _ in runs], relative_to_first=rel, printout=rng.random() < .3)
    m.check(len(comp) == len(runs), 'comparison: number of runs')
    m.check(set(comp.columns) == {c for _, k in runs for c in last[k].index}, 'comparison: outputs')
    first = last[runs[0][1]]
    for i, (s, key) in enumerate(runs):
        m.event('runs compared')
        name = os.path.join('...' + (s[1] if key[0] == home else os.path.basename(key[0])), key[1])
        name = '...' + name[-40:] if len(name) > 40 else name
        m.check(comp.index[i] == name, 'comparison: name of a run', lambda: (comp.index[i], name))
        for c in comp.columns:
            got = comp.iloc[i][c]
            exp = last[key].get(c, np.nan)
            if rel:
                with np.errstate(all='ignore'):
                    exp = np.float64(exp - first.get(c, np.nan)) / first.get(c, np.nan) * 100.
            m.check(got == exp or (got != got and exp != exp) or abs(got - exp) <= 1e-9 * abs(exp) + (1e-9 if rel else 0),
                    'comparison: value', lambda: (s, c, got, exp, rel))
    shutil.rmtree(os.path.join(home, mine))
    for bad in (('run_0', res, 'copy.csv', 'x'),):
        from pygmo_fwork.exceptions import ResultsAttributeError, ResultsNotFoundError
        m.raises(ResultsAttributeError, 'too many identifiers of a run', rp.compare, [bad], printout=False)
        m.raises(ResultsNotFoundError, 'comparison with a run which is not there', rp.compare, ['run_9'], printout=False)


def case(m, rng, i):
    from pygmo_fwork.results import ResultsParser
    df = gen_frame(m, rng)
    m.note(frame=df.head(30).to_dict('list'))
    keep = df.copy()
    thr, step = rng.choice([.05, .01, .5, rng.random()]), rng.choice([.001, 0., .05, rng.random() * .2])
    m.note(thresholds=(thr, step))
    if rng.random() < .3:
        thr, step = .05, .001
        comp = ResultsParser.compress_solution(df)
    else:
        comp = ResultsParser.compress_solution(df, diff_threshold=thr, min_timestep=step)
    m.check(df.equals(keep), 'compression changed the full solution')
    dropped, kept = check_compressed(m, df, comp, thr, step)
    # a compressed solution can be compressed again
    again = ResultsParser.compress_solution(comp, diff_threshold=thr * 2, min_timestep=step)
    check_compressed(m, comp, again, thr * 2, step)
    check_convergency(m, rng, gen_frame(m, rng, n=rng.randint(2, 60)))
    if i % 8 == 0:
        check_compare(m, rng)
    if dropped and kept > 0:
        m.signature(df.to_dict('list'), thr, step)
        m.sample({'rows': len(df), 'kept': kept + 2, 'columns': list(map(str, df.columns)), 'thresholds': (thr, step)})
