"""Configuration: what is read, which directories are made, and when."""
import os
from pathlib import Path

import yaml

from harness import fakes, gen, odes

RULE = ('random configuration files (valid, with missing keys, malformed, of other types, missing) and random sequences of '
        'queries on several instances; the workspace on disk is listed after each one and compared with the documented '
        'layout; default logs of a run and default results found again; non-trivial: at least three kinds of queries')
QUICK, THOROUGH = 300, 20000
MIN_EVENTS = {'queries': 603, 'directories made': 220, 'refused configurations': 300, 'refused backends': 60,
              'missing keys': 80, 'defaults found': 200}

LOGS = {'solution': 'solution.csv', 'rates': 'rates.csv', 'wall_fluxes': 'wall_fluxes.csv',
        'model_attributes': 'model_attributes.yaml', 'chemistry_attributes': 'chemistry_attributes.yaml',
        'solver_log': 'solver_log.yaml'}


def tree(root):
    return {str(Path(d).relative_to(root)) for d, _, _ in os.walk(root)} | \
        {str((Path(d) / f).relative_to(root)) for d, _, fs in os.walk(root) for f in fs}


def defaults(m, rng, i):
    """Everything logged without a directory given is found in the configured workspace, and read back from there."""
    from harness import core
    from pygmo_fwork.config import Config
    from pygmo_fwork.exceptions import GlobalModelAttributeError, ResultsAttributeError
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.optichem.reduction import ReductionIterator
    from pygmo_fwork.results import ResultsParser
    ws = Path(core.SCRATCH) / 'workspace'
    m.check(dict(Config()) == {'workspace': str(ws)}, 'default configuration file', lambda: dict(Config()))
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 3, 4]))
    chem = gen.build(spec)
    p = odes.gen_params(rng, spec, const_power=True)
    gm = GlobalModel(chem, p, backend=rng.choice(['pygmol', 'PyGMol']))
    m.raises(GlobalModelAttributeError, 'unknown backend', GlobalModel, chem, p, rng.choice(['gmol', '', 'pygmol ', 'HPEM']))
    m.event('refused backends')
    rid = 'c{}'.format(i)
    compress = rng.random() < .4
    results = ws / 'results' / 'pygmol'
    with fakes.solver():
        gm.run(run_id=rid, verbose=False, compress_logs=compress)
        m.check((results / rid).is_dir() and sorted(f.name for f in (results / rid).iterdir()) == sorted(LOGS.values()),
                'run logged to the default directory', lambda: sorted(map(str, results.glob('*'))))
        other = Path(m.tmp) / 'other'
        other.mkdir()
        rid2 = rid + rng.choice(['', 'x'])
        gm.run(run_id=rid2, verbose=False, log_to=rng.choice([str, Path])(other), init_el_temp=2.5)
        here, there = (read(results / rid / f) for f in ('solution.csv', 'rates.csv')), \
            (read(other / rid2 / f) for f in ('solution.csv', 'rates.csv'))
        here, there = list(here), list(there)
        m.check(here != there, 'two runs the same')
        for rp, home in ((ResultsParser(), 'here'), (ResultsParser(nominal_backend='PyGMol'), 'here'),
                         (ResultsParser(nominal_results_dir=rng.choice([str, Path])(other)), 'there')):
            run, want = (rid, here) if home == 'here' else (rid2, there)
            m.check([frame(rp.fetch_solution(run)), frame(rp.fetch_rates(run))] == want, 'results found by default', home)
            m.check([frame(rp.fetch_solution(rid, backend='pygmol')), frame(rp.fetch_rates(rid, backend='PYGMOL'))] == here,
                    'results of a backend', home)
            m.check(frame(rp.fetch_solution(rid2, results_dir=rng.choice([str, Path])(other))) == there[0],
                    'results of a directory', home)
            m.raises(ResultsAttributeError, 'ambiguous results', rp.fetch_solution, rid, 'pygmol', str(other))
            b = rng.choice(['pygmol', 'PyGMol'])
            comp = rp.compare([run, (rid, b), (rid2, str(other)), (rid, b, 'solution.csv'), (rid2, str(other), 'solution.csv')],
                              printout=False)
            for row, w in zip(comp.to_dict('records'), (want[0], here[0], there[0], here[0], there[0])):
                m.check({c: v[-1] for c, v in w[0].items()} == row, 'runs compared by default', lambda: (home, comp, w))
            m.event('defaults found', 4)
        m.raises(ResultsAttributeError, 'ambiguous results', ResultsParser, 'pygmol', str(other))
        # sensitivity runs and reductions
        mm = MorrisMethod(chem, p)
        n = rng.choice([1, 2])
        for _ in range(n):
            mm.run_trajectory(rid, 'species', verbosity=0)
        logs = ws / 'results' / 'morris_sensitivity' / rid / 'logs'
        m.check(sorted(f.name for f in logs.iterdir()) == ['traj{:03d}'.format(k + 1) for k in range(n)],
                'trajectories in the default directory')
        times = [p['t_end'] * .5]
        a = MorrisMethod.get_morris_stats(morris_run_id=rid, times=times)
        b = MorrisMethod.get_morris_stats(logs_dir=str(logs), times=times)
        m.check(a.mu[0].equals(b.mu[0]) and a.mean_outputs[0].equals(b.mean_outputs[0]), 'statistics of the default directory')
        a = MorrisMethod.get_ranking(['Te'], times, morris_run_id=rid)
        b = MorrisMethod.get_ranking(['Te'], times, logs_dir=str(logs))
        m.check(a.equals(b), 'ranking of the default directory')
        m.event('defaults found', 3)
        names = [s['name'] for s in spec['species']]
        it = None
        try:
            it = ReductionIterator(gm, rid, [names[0]], times, 10., verbose_level=0)
        except Exception as e:
            if type(e).__name__ != 'ReductionInitError':
                raise
        if it is not None:
            it.run_base_case()
            rows = list(it.reduction_history['run_id'])
            d = ws / 'results' / 'reduction' / rid
            m.check(len(rows) == 1 and (d / rows[0] / 'solution.csv').is_file(), 'reduction in the default directory',
                    lambda: sorted(map(str, d.rglob('*'))))
            m.event('defaults found')


def read(path):
    import pandas as pd
    return frame(pd.read_csv(path, index_col=0, float_precision='round_trip'))


def frame(df):
    return {str(c): [float(x) for x in df[c]] for c in df.columns}, [int(k) for k in df.index]


def case(m, rng, i):
    from pygmo_fwork.config import Config
    from pygmo_fwork.exceptions import ConfigError, GlobalModelAttributeError
    from pygmo_fwork.results import ResultsParser
    root = Path(m.tmp) / 'config'
    root.mkdir()
    # bad ones
    cfg = root / 'cfg'
    m.raises(ConfigError, 'missing file accepted', Config, str(cfg))
    m.raises(ConfigError, 'directory accepted', Config, root)
    for _ in range(3):
        bad = rng.choice(['', '# nothing\n', 'just a text\n', '12\n', '1.5', 'true\n', 'null\n', '- a\n- bcd\n',
                          'workspace: [1, 2\n', 'a: b: c\n', 'workspace: "x\n', '{a: 1', '\tworkspace: x\n', '%YAML\n:',
                          '- [1, 2, 3]\n', '&a [*b]\n', '!!python/name:os.nothing x\n', 'x: !unknown y\n', ': :\n  - ]\n',
                          '"a" "b"\n', '@x: 1\n', '- 1\n- 2\n'])
        cfg.write_text(bad)
        m.raises(ConfigError, 'malformed configuration accepted', Config, rng.choice([str, Path])(cfg))
        m.event('refused configurations')
    cfg.write_bytes(b'workspace: \xff\xfe\x00')
    m.raises(ConfigError, 'configuration which is not text accepted', Config, cfg)
    m.check(tree(root) == {'.', 'cfg'}, 'refused configuration left something', tree(root))
    m.event('refused configurations', 3)
    # a good one
    ws = root / rng.choice(['workspace', 'a/b/workspace', 'with space/w'])
    gk = root / 'globalKIN'
    d = {'workspace': str(ws), 'globalkin_bin': str(gk)}
    for k in rng.sample(sorted(d), rng.choice([0, 0, 0, 1])):
        d.pop(k)
    if rng.random() < .4:
        d['extra'] = rng.choice([1, 'x', [1, 2], {'a': 1}])
    cfg.write_text(yaml.dump(d, default_flow_style=rng.choice([None, True, False])))
    make = lambda: Config(rng.choice([str, Path])(cfg))
    c = make()
    m.check(dict(c) == d and isinstance(c, dict), 'configuration as it was written', lambda: (dict(c), d))
    have = {'.', 'cfg'}
    if rng.random() < .6:
        if rng.random() < .7:
            gk.write_text('x')
        else:
            gk.mkdir()  # not a program
        have.add('globalKIN')
    m.check(tree(root) == have, 'directories made without a request', tree(root))
    kinds = set()
    for _ in range(rng.randint(3, 9)):
        if rng.random() < .3:
            c = make()
        q = rng.choice(['results', 'results', 'bad backend', 'morris', 'reduction', 'stage', 'key', 'removed'])
        m.event('queries')
        kinds.add(q)
        want = None
        if q == 'key':
            for k in ('workspace', 'globalkin_bin', 'extra', 'nothing', 1):
                if k in d:
                    m.check(c[k] == d[k], 'value of a key')
                else:
                    m.raises(ConfigError, 'missing key', c.__getitem__, k)
                    m.event('missing keys')
        elif q == 'removed':
            if 'workspace' in d and ws.exists() and rng.random() < .5:
                for p in sorted(ws.rglob('*'), reverse=True):
                    p.rmdir()
                have -= {h for h in have if h.startswith(str(ws.relative_to(root)) + '/')}
        elif q == 'bad backend':
            m.raises(GlobalModelAttributeError, 'unknown backend', c.get_results_dir,
                     rng.choice(['pygmo', 'PyGMol2', '', 'globalkin', '../x', 'morris_sensitivity', 'pygmol/']))
            m.event('refused backends')
        elif 'workspace' not in d or q == 'stage' and ('globalkin_bin' not in d or not gk.is_file()):
            fn = {'results': lambda: c.get_results_dir('pygmol'), 'morris': c.get_morris_results_dir,
                  'reduction': c.get_reduction_results_dir, 'stage': c.get_globalkin_stage_dir}[q]
            m.raises(ConfigError, 'missing key, or globalkin', fn)
            m.event('missing keys')
        elif q == 'stage':
            got, want = c.get_globalkin_stage_dir(), ws / 'globalkin_stage'
        elif q == 'results':
            b = rng.choice(['pygmol', 'pygkin'])
            got, want = c.get_results_dir(rng.choice([b, b.upper(), b.title(), 'PyGMol' if b == 'pygmol' else 'PyGKin'])), \
                ws / 'results' / b
        elif q == 'morris':
            got, want = c.get_morris_results_dir(), ws / 'results' / 'morris_sensitivity'
        else:
            got, want = c.get_reduction_results_dir(), ws / 'results' / 'reduction'
        if want is not None:
            m.check(Path(got) == want and want.is_dir(), 'directory of ' + q, (str(got), str(want)))
            rel = want.relative_to(root)
            if str(rel) not in have:
                m.event('directories made')
            have |= {str(p) for p in [rel, *rel.parents]}
            if rng.random() < .3 and not any(want.iterdir()):
                (want / 'kept').mkdir()
                have.add(str(rel / 'kept'))
        m.check(tree(root) == have, 'directories other than the one asked for', (q, tree(root) ^ have))
    for k, v in LOGS.items():
        m.check(c.default_log_name(k) == v, 'name of a log', (k, c.default_log_name(k)))
    m.raises(AssertionError, 'unknown log', c.default_log_name, rng.choice(['solutions', '', 'rates.csv']))
    if i % 3 == 0:
        defaults(m, rng, i)
    if len(kinds) >= 3:
        m.signature(sorted(d), sorted(kinds), str(ws.relative_to(root)))
        m.sample({'configuration': sorted(d), 'left': sorted(tree(root))})

