"""What a run logged is what it computed, and enough to repeat it."""
import os

import numpy as np

from harness import gen, hist, odes
from harness.checks import p21

RULE = ('random chemistry in a random state, random parameters and initial values in every accepted number type, run and '
        'logged; everything is fetched back through every way to address the run, compared with the live results, '
        'interpolated at random times, and the run is repeated from its logs alone; non-trivial: a logged run of at '
        'least 10 rows')
QUICK, THOROUGH = 160, 2500
CASE_LIMIT = 25
MIN_EVENTS = {'logged runs': 20, 'frames compared': 86, 'runs repeated from logs': 7, 'interpolated rows': 88, 'interpolation to a single time': 4,
              'missing logs refused': 38}


def frame(m, live, got, what):
    m.event('frames compared')
    m.check([str(x) for x in live.columns] == [str(x) for x in got.columns] and
            [type(x) is str for x in live.columns] == [type(x) is str for x in got.columns], what + ': columns',
            lambda: (list(live.columns), list(got.columns)))
    m.check(len(live) == len(got), what + ': number of rows', lambda: (len(live), len(got)))
    a, b = live.values.astype(float), got.values.astype(float)
    m.check(list(a[:, 0]) == list(b[:, 0]), what + ': times are read back exactly', lambda: (a[:, 0], b[:, 0]))
    m.check(np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), what + ': values',
            lambda: np.abs(a - b).max())


def typed(rng, v):
    return rng.choice([v, np.float64(v)])


def case(m, rng, i):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.config import Config
    from pygmo_fwork import exceptions as ex
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .6:
        h.random_state()
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    passed = dict(p)
    for k in ('radius', 'length', 'pressure', 'temp_gas', 't_end'):
        passed[k] = typed(rng, p[k])
    passed['feeds'] = {n: typed(rng, v) for n, v in p['feeds'].items()}
    for k in ('power', 't_power'):
        passed[k] = rng.choice([list, tuple, np.array])(p[k])
    gm = GlobalModel(chem, passed)
    kw = {}
    if rng.random() < .6:
        kw['init_el_temp'] = typed(rng, 10 ** rng.uniform(-.5, 1))
    if rng.random() < .6:
        y = odes.gen_state(rng, ref, p, hostile=False)
        kw['init_n'] = {ref.sp[s]['name']: typed(rng, float(v)) for s, v in zip(ref.species_ids(), y)}
    # where it goes: the workspace of the configuration, or anywhere
    run_id = 'run {}-{}'.format(os.getpid(), i)
    own = rng.random() < .6
    compress = rng.random() < .25
    res = os.path.join(m.tmp, 'my results')
    os.mkdir(res)
    try:
        gm.run(run_id=run_id, verbose=False, compress_logs=compress, **dict(kw, **({'log_to': res} if own else {})))
    except ModelSolutionError:
        m.event('failed runs')
        return
    m.event('logged runs')
    live = gm.get_solution(), gm.get_rates(), gm.get_wall_fluxes()
    where = res if own else str(Config().get_results_dir('pygmol'))
    m.check(os.path.isfile(os.path.join(where, run_id, 'solution.csv')), 'log is not where it belongs', where)
    rps = [(ResultsParser(nominal_results_dir=where), {})]
    rps.append((ResultsParser(), {'results_dir': where}))
    if not own:
        rps += [(ResultsParser(), {}), (ResultsParser(nominal_backend='PyGMol'), {}),
                (ResultsParser(nominal_results_dir=res), {'backend': 'pygmol'})]
    fetched = None
    for rp, kk in rps:
        got = rp.fetch_solution(run_id, **kk), rp.fetch_rates(run_id, **kk), rp.fetch_wall_fluxes(run_id, **kk)
        if compress:
            for a, b in zip(live, got):
                m.check(list(a.columns) == list(b.columns), 'columns of a compressed log')
                m.check(set(b.index) <= set(a.index), 'compressed log has rows the run does not')
                m.check(np.allclose(a.loc[b.index].values.astype(float), b.values.astype(float), rtol=1e-12, atol=0,
                                    equal_nan=True), 'values of a compressed log')
                m.event('compressed frames')
                p21.check_compressed(m, a, a.loc[b.index], .05, .001)       # the documented thresholds
        else:
            for a, b, what in zip(live, got, ('solution', 'rates', 'wall fluxes')):
                frame(m, a, b, 'logged ' + what)
        m.check(all(type(x) is str for x in got[0].columns) and
                all(isinstance(x, (int, np.integer)) for x in got[1].columns[1:]), 'labels of a log')
        params, inits = rp.fetch_model_params(run_id, **kk), rp.fetch_initial_params(run_id, **kk)
        m.check({k: list(map(float, v)) if k in ('power', 't_power') else v for k, v in params.items()} ==
                {k: list(map(float, v)) if k in ('power', 't_power') else v for k, v in p.items()},
                'logged model parameters', lambda: (params, p))
        m.check(inits['init_el_temp'] == kw.get('init_el_temp', 1.), 'logged initial electron temperature',
                lambda: inits)
        exp = kw.get('init_n', gm.generate_initial_n())
        m.check(inits['init_n'] == exp, 'logged initial densities', lambda: (inits['init_n'], exp))
        fetched = got, params, inits
    if not own:
        back = rng.choice(['pygmol', 'PyGMol', 'PYGMOL'])
        comp = rng.choice(rps)[0].compare([(run_id, back), (run_id, back, 'solution.csv'), (run_id, where)], printout=False)
        m.event('runs addressed by a backend')
        for k in range(len(comp)):
            m.check(np.allclose(comp.iloc[k][list(live[0].columns)].values.astype(float), live[0].iloc[-1].values.astype(float),
                                rtol=1e-12, atol=0, equal_nan=True), 'run addressed by a backend', lambda: (k, back))
    # what is not there is reported
    for fn in ('fetch_solution', 'fetch_rates', 'fetch_wall_fluxes', 'fetch_model_params', 'fetch_initial_params'):
        m.event('missing logs refused')
        m.raises(ex.ResultsNotFoundError, 'log which does not exist: ' + fn, getattr(rps[0][0], fn), 'other run')
        m.raises(ex.ResultsAttributeError, 'both backend and directory', getattr(rps[0][0], fn), run_id,
                 backend='pygmol', results_dir=where)
        kk = 'attributes_dump_name' if 'params' in fn else 'file_name'
        m.raises(ex.ResultsNotFoundError, 'log file which does not exist: ' + fn, getattr(rps[0][0], fn), run_id,
                 **{kk: 'missing.csv'})
    # interpolation
    m.check(float(ResultsParser.get_results_frames(fetched[0][0], [p['t_end']])['t'].iloc[0]) == p['t_end'],
            'results at the end time')
    for df in fetched[0][:2]:
        t = df['t'].values
        times = sorted({rng.uniform(t[0], t[-1]) for _ in range(6)} | {t[0], t[-1], t[len(t) // 2]})
        if rng.random() < .3:
            rng.shuffle(times)
        if rng.random() < .4:
            times = times[:rng.choice([0, 1, 1, 1, 2])]
            m.event('interpolation to a single time', len(times) == 1)
        keep = df.copy()
        fr = ResultsParser.get_results_frames(df, rng.choice([list, tuple, np.array])(times))
        m.check(df.equals(keep), 'interpolation changed the results')
        m.check(list(fr.columns) == list(df.columns) and len(fr) == len(times), 'interpolated frames: structure',
                lambda: (list(fr.columns), len(fr), len(times)))
        m.check([float(x) for x in fr['t']] == [float(x) for x in times], 'interpolated frames: times')
        for r, tt in enumerate(times):
            m.event('interpolated rows')
            k = int(np.searchsorted(t, tt, side='right')) - 1
            k = min(k, len(t) - 2)
            w = (tt - t[k]) / (t[k + 1] - t[k])
            a, b = df.iloc[k].values[1:].astype(float), df.iloc[k + 1].values[1:].astype(float)
            exp = a + (b - a) * w
            got = fr.iloc[r].values[1:].astype(float)
            m.check((np.abs(got - exp) <= 1e-7 * (np.abs(a) + np.abs(b))).all(), 'interpolated frames: values',
                    lambda: (tt, got.tolist(), exp.tolist()))
        for tt in (t[0] - 1e-9, t[-1] * (1 + 1e-9), -1., np.inf):
            m.raises(AssertionError, 'extrapolation', ResultsParser.get_results_frames, df, [t[0], tt])
        if len(t) > 3:      # a part of the results
            k = rng.randrange(1, len(t) - 2)
            part = df.iloc[k:-1]
            for tt in (t[k] - (t[k] - t[k - 1]) * rng.random() * .9 - 1e-3 * (t[k] - t[k - 1]), t[-1]):
                m.raises(AssertionError, 'extrapolation of a part', ResultsParser.get_results_frames, part, [t[k + 1], tt])
            m.event('parts of results')
            m.check(ResultsParser.get_results_frames(part, [t[k], t[-2]])['t'].tolist() == [t[k], t[-2]], 'ends of a part')
    # the run can be repeated from its logs
    (sol, rates, fluxes), params, inits = fetched
    other = gen.build(spec)
    if rng.random() < .5:
        hist.History(m, rng, spec, other).random_state(2)
    attrs = os.path.join(where, run_id, 'chemistry_attributes.yaml')
    other.load_chemistry_attributes(attrs)
    again = GlobalModel(other, params)
    again.run(log_results=False, verbose=False, **inits)
    m.event('runs repeated from logs')
    for a, b in zip(live, (again.get_solution(), again.get_rates(), again.get_wall_fluxes())):
        m.check(list(a.columns) == list(b.columns) and len(a) == len(b) and
                np.allclose(a.values.astype(float), b.values.astype(float), rtol=1e-9, atol=0, equal_nan=True),
                'a run repeated from its logs differs', lambda: (len(a), len(b)))
    if len(live[0]) >= 10:
        m.signature(gen.describe(spec), sorted(ref.en_r), p)
        m.sample({'chemistry': gen.describe(spec), 'parameters': p, 'initial': inits, 'rows': len(live[0])})
