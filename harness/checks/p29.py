"""Morris statistics and rankings are those of the logged trajectories."""
import math
import os
import statistics

import numpy as np
import pandas as pd
import yaml

from harness import fakes

RULE = ('random logs of a Morris run: trajectories with their own order of factors, steps of both signs, time grids which '
        'differ from run to run, extra columns, left-over and unfinished trajectories; statistics and rankings for one '
        'or more times inside of the logs, from the directory or from the run id in the workspace, recomputed from the '
        'same numbers; non-trivial: two trajectories of at least 3 factors')
QUICK, THOROUGH = 200, 6000
MIN_EVENTS = {'elementary effects': 4376, 'means and deviations': 1673, 'rankings': 120, 'unfinished trajectories': 14,
              'runs in the workspace': 19, 'single times': 20, 'refused rankings': 100, 'refused times': 60,
              'factors with integer ids': 12, 'factors with names': 12}


def close(a, b, scale, rel=1e-9):
    return abs(float(a) - b) <= rel * abs(scale) + 1e-300


def case(m, rng, i):
    from pygmo_fwork.config import Config
    from pygmo_fwork.optichem.morris import MorrisMethod
    dim = rng.randint(2, 6)
    style = rng.choice(['int', 'name', 'ret'])
    if style == 'int':
        factors = rng.sample(range(1, rng.choice([12, 500])), dim)
        m.event('factors with integer ids')
    elif style == 'name':
        factors = rng.sample(['Ar', 'Ar+', 'Ar*', 'O2', 'O-', 'NH3', 'H2O', 'N2(v=1)'], dim)
        m.event('factors with names')
    else:
        factors = ['r({}>{})'.format(a, b) for a, b in [('Ar+', 'Ar'), ('NH2+', 'NH'), ('O', 'O2'), ('NH2+', 'NH3'),
                                                         ('O-', 'O'), ('N', 'N2')]][:dim]
        rng.shuffle(factors)
    outputs = rng.sample(['Ar', 'Ar+', 'O', 'O2', 'N'], rng.randint(1, 4)) + ['e', 'Te', 'Tg', 'p']
    cols = ['t'] + outputs
    t_end = 10 ** rng.uniform(-5, 1)
    where = None
    if rng.random() < .4:
        run = 'stats {} {}'.format(os.getpid(), i)
        where = os.path.join(str(Config().get_morris_results_dir()), run)
        logs = os.path.join(where, 'logs')
        m.event('runs in the workspace')
    else:
        run = None
        logs = os.path.join(m.tmp, 'logs')
    os.makedirs(logs)
    try:
        ntraj = 101 if i == 7 else rng.choice([2, 2, 3, 4, 8, 11])
        trajs = []
        base_level = {c: 10 ** rng.uniform(-2, 20) for c in outputs}

        def solution():
            inner = sorted(rng.uniform(0, t_end) for _ in range(rng.randint(0, 6)))
            t = [0.] + inner + [t_end]
            return {'t': t, **{c: [300. if c == 'Tg' else base_level[c] * rng.uniform(.2, 2.) for _ in t] for c in outputs}}

        def write(tdir, rid, sol):
            os.makedirs(os.path.join(tdir, rid))
            pd.DataFrame(sol, columns=cols).to_csv(os.path.join(tdir, rid, 'solution.csv'))
        names = ['traj{:03d}'.format(k + 1) for k in range(ntraj)]
        if rng.random() < .3:
            names[-1] = 'mine'
        for tname in names:
            tdir = os.path.join(logs, tname)
            order = list(factors)
            rng.shuffle(order)
            deltas = [rng.choice([-.5, .5]) for _ in order]
            sols = [solution()]
            write(tdir, '0_initial_run', sols[0])
            ids = []
            for k, f in enumerate(order):
                rid = '{}_elem_effect_of_{}'.format(k + 1, f)
                ids.append(rid)
                sols.append(solution())
                write(tdir, rid, sols[-1])
            if rng.random() < .2:
                write(tdir, '9_elem_effect_of_left_over', solution())
            with open(os.path.join(tdir, 'meta.yaml'), 'w') as s:
                yaml.safe_dump({'base_run_id': '0_initial_run', 'run_ids': ids, 'deltas': deltas,
                                'factors_ids': order}, s)
            trajs.append((order, deltas, sols))
        if rng.random() < .4:
            m.event('unfinished trajectories')
            os.makedirs(os.path.join(logs, 'traj{:03d}'.format(ntraj + 1)))
            if rng.random() < .5:
                write(os.path.join(logs, 'traj{:03d}'.format(ntraj + 1)), '0_initial_run', solution())
        times = [rng.choice([0., t_end, rng.uniform(0, t_end)]) for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(times) == 1:
            m.event('single times')
        if dim >= 3:
            m.signature(dim, times, outputs)
        m.note(times=times, factors=[str(f) for f in factors], outputs=outputs)
        kw = {'morris_run_id': run} if run else {'logs_dir': logs}
        passed = rng.choice([list, tuple, np.array])(times)

        # the numbers
        ee, means, size = {}, {}, {}
        for n, (order, deltas, sols) in enumerate(trajs):
            for q, t in enumerate(times):
                for c in outputs:
                    v = [fakes.interp(s['t'], s[c], t) for s in sols]
                    size[c] = max(size.get(c, 0.), max(map(abs, v)))
                    means[n, q, c] = math.fsum(v) / len(v)
                    for k, f in enumerate(order):
                        ee[n, q, f, c] = (v[k + 1] - v[k]) / deltas[k]
        # one trajectory
        for n, tname in enumerate(names):
            st = MorrisMethod.evaluate_trajectory(os.path.join(logs, tname), passed)
            m.check([float(t) for t in st.times] == times and len(st.elementary_effects) == len(times) ==
                    len(st.mean_outputs), 'times of a trajectory', (st.times, times))
            for q in range(len(times)):
                m.check(list(st.elementary_effects[q].index) == trajs[n][0], 'factors of a trajectory')
                for c in outputs:
                    m.check(close(st.mean_outputs[q][c], means[n, q, c], size[c]), 'mean outputs of a trajectory',
                            lambda: (c, st.mean_outputs[q][c], means[n, q, c]))
                    for f in factors:
                        m.event('elementary effects')
                        m.check(close(st.elementary_effects[q].at[f, c], ee[n, q, f, c], size[c]),
                                'elementary effects of a trajectory',
                                lambda: (tname, f, c, st.elementary_effects[q].at[f, c], ee[n, q, f, c]))
        # all of them
        ms = MorrisMethod.get_morris_stats(times=passed, **kw)
        m.check([float(t) for t in ms.times] == times, 'times of the statistics')
        rel_mu, rel_sigma = {}, {}
        for q in range(len(times)):
            for x in (ms.mu, ms.sigma, ms.mu_rel, ms.sigma_rel):
                m.check(sorted(map(str, x[q].index)) == sorted(map(str, factors)), 'factors of the statistics',
                        lambda: list(x[q].index))
            for c in outputs:
                mean = math.fsum(means[n, q, c] for n in range(ntraj)) / ntraj
                m.check(close(ms.mean_outputs[q][c], mean, size[c]), 'mean outputs', (c, ms.mean_outputs[q][c], mean))
                for f in factors:
                    m.event('means and deviations')
                    vals = [ee[n, q, f, c] for n in range(ntraj)]
                    mu, sigma = math.fsum(vals) / ntraj, statistics.stdev(vals)
                    rel_mu[q, f, c], rel_sigma[q, f, c] = mu / mean, sigma / mean
                    s = 4 * size[c]
                    m.check(close(ms.mu[q].at[f, c], mu, s), 'mean of elementary effects', (f, c, ms.mu[q].at[f, c], mu))
                    m.check(close(ms.sigma[q].at[f, c], sigma, s, 1e-7), 'deviation of elementary effects',
                            (f, c, ms.sigma[q].at[f, c], sigma))
                    m.check(close(ms.mu_rel[q].at[f, c], mu / mean, s / mean), 'relative mean of elementary effects')
                    m.check(close(ms.sigma_rel[q].at[f, c], sigma / mean, s / mean, 1e-7),
                            'relative deviation of elementary effects')
        # rankings
        for how in ('max', 'mean', None):
            imp = rng.sample([c for c in outputs if c != 'Tg'], rng.randint(1, min(3, len(outputs) - 1)))
            kk = dict(kw, **({'method': how} if how else {}))
            rank = MorrisMethod.get_ranking(rng.choice([list, tuple])(imp), passed, **kk)
            score = {}
            for f in factors:
                if how == 'mean':
                    score[f] = math.fsum(abs(rel_mu[q, f, c]) + rel_sigma[q, f, c] for q in range(len(times))
                                         for c in imp) / len(times) / len(imp)
                else:
                    score[f] = max(max(abs(rel_mu[q, f, c]) for c in imp) + max(rel_sigma[q, f, c] for c in imp)
                                   for q in range(len(times)))
            m.event('rankings')
            m.check(sorted(map(str, rank.index)) == sorted(map(str, factors)), 'ranked factors', list(rank.index))
            for f in factors:
                m.check(abs(float(rank[f]) - score[f]) <= 1e-7 * (score[f] + 1), 'ranking score',
                        (how, f, rank[f], score[f]))
            v = [float(x) for x in rank.values]
            m.check(v == sorted(v), 'ranking is sorted from the least significant one', v)
        # refusals
        m.raises(ValueError, 'output which does not exist', MorrisMethod.get_ranking, ['Xe'], times, **kw)
        m.raises(ValueError, 'method which does not exist', MorrisMethod.get_ranking, [outputs[0]], times,
                 method='median', **kw)
        m.raises(ValueError, 'no run given', MorrisMethod.get_ranking, [outputs[0]], times)
        m.raises(ValueError, 'no times given', MorrisMethod.get_morris_stats, **kw)
        m.raises(ValueError, 'run given twice', MorrisMethod.get_morris_stats, morris_run_id='x', logs_dir=logs, times=times)
        m.event('refused rankings', 5)
        for t in (-1e-9, t_end * 1.001):
            m.raises(AssertionError, 'time outside of the logs', MorrisMethod.get_morris_stats, times=times + [t], **kw)
            m.event('refused times')
        m.sample('{} trajectories of {} at {}'.format(ntraj, factors, times))
    finally:
        if where:
            import shutil
            shutil.rmtree(where)
