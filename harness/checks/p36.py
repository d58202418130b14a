"""Figures show the logged data."""
import os

import numpy as np
import pandas as pd
import yaml

RULE = ('random logged solutions and reduction histories (accepted, unsuccessful, failed removals, up to 5 reductions '
        'together) plotted with random options; the lines, labels, scales, limits and annotations of the figures are read '
        'back from the drawing library and compared with the logs; non-trivial: a comparison with accepted and '
        'unsuccessful removals')
QUICK, THOROUGH = 160, 4000
CASE_LIMIT = 60
MIN_EVENTS = {'solutions plotted': 53, 'lines compared': 349, 'comparisons of reductions': 60, 'dead ends': 42,
              'accepted points': 300, 'annotations': 75, 'refusals': 60, 'figures saved': 10}


def points(line):
    x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
    return list(zip(x.tolist(), y.tolist()))


def near(a, b):
    return len(a) == len(b) and all(abs(p - q) <= 1e-9 * max(abs(q), 1e-300) + 1e-12 * (abs(q) < 1e-3) or p != p and q != q
                                    for u, v in zip(a, b) for p, q in zip(u, v))


def take(m, lines, pts, label, what):
    """Removes a line with these points (and label, if any) from the lines."""
    for k, ln in enumerate(lines):
        if near(points(ln), pts) and (label is None or ln.get_label() == label):
            m.event('lines compared')
            return lines.pop(k)
    m.check(False, what + ' is not shown', lambda: (pts, label, [(ln.get_label(), points(ln)) for ln in lines]))


def solutions(m, rng, plt):
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.exceptions import ResultsNotFoundError
    names = rng.sample(['A', 'Ar', 'Ar+', 'O2', 'O-', 'N2(v=1)', 'H', 'He*', 'p2'], rng.randint(1, 6))
    n = rng.randint(1, 12)
    cols = ['t'] + names + ['e', 'Te', 'Tg', 'p']
    t = np.r_[0., np.cumsum([10 ** rng.uniform(-6, 0) for _ in range(n - 1)])]
    sol = pd.DataFrame({c: [10 ** rng.uniform(-6, 22) for _ in range(n)] for c in cols})
    sol['t'] = t
    root = os.path.join(m.tmp, 'results')
    os.makedirs(os.path.join(root, 'run'))
    file_name = rng.choice([None, 'other.csv'])
    sol.to_csv(os.path.join(root, 'run', file_name or 'solution.csv'))
    rp = ResultsParser(nominal_results_dir=root) if rng.random() < .5 else ResultsParser()
    kw = {'results_dir': root} if rp.nominal_results_dir != root or rng.random() < .3 else {}
    if file_name:
        kw['file_name'] = file_name
    to_plot = rng.sample(cols[1:], rng.randint(0, min(4, len(cols) - 1)))
    log = rng.choice([None, True, False])
    if log is not None:
        kw['log'] = log
    m.note(solution=sol.to_dict('list'), to_plot=to_plot, options=kw)
    rp.plot_solution('run', *to_plot, **kw)
    m.event('solutions plotted')
    ax = plt.gca()
    lines = list(ax.get_lines())
    for c in to_plot or names:
        take(m, lines, list(zip(sol['t'], sol[c])), c, 'a quantity to plot')
    if not to_plot:
        # 'all densities': with or without the electrons
        lines = [ln for ln in lines if not near(points(ln), list(zip(sol['t'], sol['e'])))]
    m.check(not lines, 'something else is plotted', lambda: [ln.get_label() for ln in lines])
    m.check(ax.get_yscale() == ('linear' if log is False else 'log'), 'scale', ax.get_yscale())
    shown = [x.get_text() for x in ax.get_legend().get_texts()]
    m.check([x for x in shown if x != 'e' or 'e' in to_plot] == (to_plot or names), 'legend', shown)
    m.check('s' in ax.get_xlabel(), 'time axis')
    m.check(('(Pa)' in ax.get_ylabel()) == bool(set(to_plot) & {'p', 'Te', 'Tg'}), 'label of the values', ax.get_ylabel())
    m.raises(ResultsNotFoundError, 'plot of a run which does not exist', rp.plot_solution, 'nothing', **kw)
    m.event('refusals')


def history(rng, limit, names):
    """A log as a reduction writes it: (frame, accepted points, dead ends as pairs of points, names of both)."""
    total = len(names) + rng.randint(0, 3)
    rows = [{'species': None, 'ranking_score': None, 'rm_success': True, 'rm_additional': None, 'total_removed': 0,
             'total_left': total, 'run_id': '00_base_case', 'error_base_max': 0., 'error_base_rms': 0.,
             'error_last_max': 0., 'error_last_rms': 0.}]
    removed, ok, dead, ok_names, dead_names = 0, [(0, 0.)], [], [''], []
    last = (0, 0.)
    names = list(names)
    while names and rng.random() < .93:
        s = names.pop()
        kind = rng.choice(['ok', 'ok', 'dead', 'dead', 'failed'])
        extra = [names.pop() for _ in range(rng.choice([0, 0, 0, 1, 2, 8])) if names] if kind != 'failed' else []
        err = rng.random() * limit / 100 if kind == 'ok' else limit / 100 * 10 ** rng.uniform(.01, 1.5)
        now = removed + 1 + len(extra)
        rows.append({'species': s, 'ranking_score': rng.random(), 'rm_success': kind != 'failed',
                     'rm_additional': ', '.join(extra) or None, 'total_removed': removed if kind == 'failed' else now,
                     'total_left': total - (removed if kind == 'failed' else now),
                     'run_id': None if kind == 'failed' else 'x', 'error_base_max': None if kind == 'failed' else err,
                     'error_base_rms': None, 'error_last_max': None, 'error_last_rms': None})
        if kind == 'ok':
            removed, last = now, (now, err * 100)
            ok.append(last)
            ok_names.append(', '.join([s] + extra))
        elif kind == 'dead':
            dead.append([last, (now, err * 100)])
            dead_names.append(s)
    return pd.DataFrame(rows), ok, dead, ok_names, dead_names


def plain(text):
    for x in '$^{}_':
        text = text.replace(x, '')
    return text


def reductions(m, rng, plt):
    from pygmo_fwork.optichem.reduction import compare_reduction_runs
    limit = rng.choice([1., 5, 20., 60])
    pool = ['Ar', 'Ar+', 'O2', 'O-', 'H', 'He', 'N2', 'NO', 'SF6', 'CF3+', 'Cl', 'Cl2', 'H2O', 'O3', 'F', 'Si', 'O2(v=3)', 'CF2', 'C2F6', 'H2', 'OH', 'HO2', 'Ne', 'Kr']
    paths, runs = [], []
    n = rng.randint(1, 5)
    for k in range(n):
        path = os.path.join(m.tmp, 'red{}'.format(k))
        os.makedirs(path)
        hist = history(rng, limit, rng.sample(pool, rng.randint(1, 22)))
        hist[0].to_csv(os.path.join(path, 'reduction_history.csv'))
        with open(os.path.join(path, 'meta.yaml'), 'w') as f:
            yaml.dump({'important_outputs': ['e'], 'important_times': [1.], 'max_error': limit}, f)
        paths.append(path)
        runs.append(hist)
    m.note(histories=[r[0].to_string() for r in runs], limit=limit)
    kw = {}
    dead, ends, most, notes = rng.random() < .75, rng.random() < .3, rng.random() < .7, rng.random() < .5
    if not dead or rng.random() < .5:
        kw['dead_ends'] = dead
    if ends or rng.random() < .5:
        kw['plot_endpoints'] = ends
    if not most or rng.random() < .5:
        kw['plot_max_error'] = most
    if notes or rng.random() < .5:
        kw['annotate'] = notes
    labels = [os.path.basename(p) for p in paths]
    if rng.random() < .4:
        labels = kw['labels'] = ['label {}'.format(k) for k in range(n)]
    if rng.random() < .3:
        kw['line_styles_success'] = ['k-o', 'm-o', 'c-o', 'y-o', 'b-o']
        kw['line_styles_unsuccess'] = ['k:X', 'm:X', 'c:X', 'y:X', 'b:X']
    own = {'Ar': 'argon'} if rng.random() < .3 else {}
    if own:
        kw['spcs_annotations'] = own
    lim = {}
    if rng.random() < .2:
        lim['xlim'] = kw['xlim'] = (-1., 30.)
    if rng.random() < .2:
        lim['ylim'] = kw['ylim'] = (-2., 3000.)
    save = os.path.join(m.tmp, 'figure.png') if rng.random() < .4 else None
    if save:
        kw['save_to'] = save
    m.note(options=kw)
    compare_reduction_runs(*paths, **kw)
    m.event('comparisons of reductions')
    ax = plt.gca()
    lines, texts = list(ax.get_lines()), [plain(x.get_text()) for x in ax.texts]
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    if 'xlim' in lim:
        m.check((x0, x1) == lim['xlim'], 'limits', (x0, x1))
    if 'ylim' in lim:
        m.check((y0, y1) == lim['ylim'], 'limits', (y0, y1))
    expected = []
    shown = []
    for (frame, ok, ends_, ok_names, dead_names), label in zip(runs, labels):
        take(m, lines, ok, label, 'a line of accepted removals')
        shown += ok
        m.event('accepted points', len(ok))
        expected += ok_names
        if dead:
            for pair in ends_:
                take(m, lines, pair, None, 'a dead end')
                take(m, lines, pair[1:], None, 'a point of an unsuccessful removal')
                shown += pair
                m.event('dead ends')
            expected += dead_names
        if ends:
            for k, ln in enumerate(lines):
                pts = points(ln)
                if len(pts) == 2 and pts[0][0] == pts[1][0] == ok[-1][0] and min(pts[0][1], pts[1][1]) < -1e3 and \
                        max(pts[0][1], pts[1][1]) > 1e5:
                    lines.pop(k)
                    break
            else:
                m.check(False, 'an endpoint is not shown')
    if most:
        for k, ln in enumerate(lines):
            pts = points(ln)
            if len(pts) == 2 and pts[0][1] == pts[1][1] == limit and pts[0][0] <= x0 and pts[1][0] >= x1:
                lines.pop(k)
                break
        else:
            m.check(False, 'the maximal error is not shown', lambda: [points(ln) for ln in lines])
    m.check(not lines, 'something else is plotted', lambda: [points(ln) for ln in lines])
    for x, y in shown:
        m.check((x0 <= x <= x1 or 'xlim' in lim) and (y0 <= y <= y1 or 'ylim' in lim), 'a point is out of the figure',
                lambda: (x, y, ax.get_xlim(), ax.get_ylim()))
    if notes:
        # own annotations replace the name of a species removed on its own
        expected = [own.get(x, x) for x in expected]
        m.check(sorted(texts) == sorted(expected), 'annotations', lambda: (sorted(texts), sorted(expected)))
        m.event('annotations', len(texts))
    else:
        m.check(not texts, 'annotations which were not asked for', texts)
    if save:
        m.check(os.path.isfile(save) and os.path.getsize(save) > 1000, 'figure is not saved')
        m.event('figures saved')
    if any(len(r[1]) > 1 for r in runs) and any(r[2] for r in runs):
        m.signature([r[0].to_string() for r in runs], sorted(map(str, kw.items())))
        m.sample([r[0][['species', 'rm_success', 'total_removed', 'error_base_max']].values.tolist() for r in runs][:1])
    if n > 1:
        with open(os.path.join(paths[-1], 'meta.yaml'), 'w') as f:
            yaml.dump({'important_outputs': ['e'], 'important_times': [1.], 'max_error': limit + 1}, f)
        m.raises(AssertionError, 'reductions with different limits', compare_reduction_runs, *paths)
        m.raises(AssertionError, 'too few labels', compare_reduction_runs, paths[0], labels=[])
        m.event('refusals', 2)


def case(m, rng, i):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    plt.close('all')
    try:
        solutions(m, rng, plt)
        plt.close('all')
        reductions(m, rng, plt)
    finally:
        plt.close('all')
