"""Parallel Morris runs: as many complete, independent trajectories as were asked for, whatever the schedule."""
import os
import random
import time

import numpy as np
import pandas as pd
import yaml

from harness import fakes, gen, hist, odes

RULE = ('run_morris on random chemistries with 1 to 4 real worker processes, repeated on the same run id; the stiff solver '
        'is replaced by a quick one with random delays, yaml files are written in two parts with a random pause between '
        'them, directories are made after a random pause, and in some trajectories the solver fails; afterwards the logs are audited: which trajectories are '
        'finished, complete, different from each other, and untouched by later calls; non-trivial: at least 3 '
        'trajectories in at least 2 processes')
QUICK, THOROUGH = 64, 2500
CASE_LIMIT = 100
MIN_EVENTS = {'trajectories requested': 150, 'trajectories audited': 150, 'repeated runs': 30, 'failed trajectories': 8,
              'schedules (order of finishing)': 17, 'runs with several processes': 25,
              'refused runs': 42,
              'independent trajectories': 1}


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            with open(os.path.join(d, f), 'rb') as s:
                out[os.path.relpath(os.path.join(d, f), root)] = s.read()
    return out


def case(m, rng, i):
    from pygmo_fwork.optichem.morris import MorrisMethod
    spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 3, 3]), n_reactions=rng.randint(2, 4))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    ref = gen.Ref(spec)
    sids, rids = ref.species_ids(), ref.reaction_ids()
    if not [s for s in sids if ref.sp[s]['q'] == 0]:
        return
    kind = rng.choice(['reactions', 'species', 'reactions', 'species', 'return_coefficients'])
    labels = [str(r) for r in rids] if kind == 'reactions' else [ref.sp[s]['name'] for s in sids]
    extra = {}
    if kind == 'return_coefficients' and len(sids) > 2:
        m.event('return coefficients varied')
        s = rng.choice([s for s in sids])
        name, others = ref.sp[s]['name'], [ref.sp[t]['name'] for t in sids if t != s][:3]
        chem.set_adhoc_species_attributes('ret_coefs', s, dict({o: .1 for o in others}, **{name: .6}))
        chem.set_adhoc_species_attributes('stick_coef', s, .5)
        extra = {'ret_species': [(name, o) for o in others], 'rel_ranges': rng.choice([2., [1.5] * len(others)])}
        labels = ['r({}>{})'.format(name, o) for o in others]
    dim = len(labels)
    if dim < 2 or kind == 'return_coefficients' and not extra:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    mm = MorrisMethod(chem, p, model_backend=rng.choice(['pygmol', 'PyGMol']))
    root = os.path.join(m.tmp, 'morris')
    os.makedirs(root)
    own = hist.values(chem)
    salt = rng.randrange(10 ** 9)
    fail_rate = rng.choice([0, 0, 0, .15])
    pause = rng.choice([.002, .01, .03])

    def dice(*key):
        return random.Random(repr((salt, os.getpid(), time.monotonic_ns(), key)))

    def plan(k):
        return 'value' if dice('fail').random() < fail_rate else None
    real_dump = yaml.dump

    def slow_dump(data, stream=None, **kw):
        if stream is None:
            return real_dump(data, stream, **kw)
        text = real_dump(data, **kw)
        d = dice('dump')
        k = d.randrange(len(text) + 1)
        stream.write(text[:k])
        stream.flush()
        time.sleep(d.random() * pause)
        stream.write(text[k:])
        stream.flush()
    real_mkdir = os.mkdir

    def slow_mkdir(path, *a, **kw):
        if str(path).startswith(root):
            time.sleep(dice('mkdir').random() * pause)
        return real_mkdir(path, *a, **kw)
    finished, log = set(), []
    yaml.dump = slow_dump
    os.mkdir = slow_mkdir
    try:
        for step in range(3 if fail_rate else rng.choice([1, 2, 2, 3])):
            n, cores = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 2, 3, 4])
            log.append('run_morris({} trajectories in {} processes)'.format(n, cores))
            m.note(steps=log, kind=kind)
            before = tree(root)
            kw = dict(extra, **({'verbosity': 0} if rng.random() < .5 else {}))
            full, seed = rng.random() < .3, rng.random() < .1
            if full or rng.random() < .2:
                kw['full_log'] = full
            if seed:
                kw['random_seed'] = rng.randrange(1000)
            with fakes.solver(plan, lambda k: dice('solve').random() * pause):
                mm.run_morris('run', kind, n, num_cores=cores, morris_results_dir=root, **kw)
            now = tree(root)
            m.event('trajectories requested', n)
            if step:
                m.event('repeated runs')
            if cores > 1 and n > 1:
                m.event('runs with several processes')
            free = [k for k in range(1, 99) if 'traj{:03d}'.format(k) not in finished]
            want = ['traj{:03d}'.format(k) for k in free[:n]]
            got = {f.split('/')[2] for f in now if f.startswith('run/logs/') and f.endswith('/meta.yaml') and
                   f.count('/') == 3}
            new = got - finished
            m.check(finished <= got, 'finished trajectories are lost', sorted(finished - got))
            lost = set(want) - new
            if not fail_rate:
                m.check(not lost, 'requested trajectories are missing', lambda: (sorted(lost), sorted(got)))
            elif lost:
                m.event('failed trajectories', len(lost))
            if step and fail_rate == 0 and new & {w for w in want if any(f.startswith('run/logs/{}/'.format(w)) for f in before)}:
                m.event('failed trajectories replaced')
            m.check(new <= set(want), 'trajectory ids', (sorted(new), want))
            # what was finished before is still the same
            keep = {f: v for f, v in before.items() if f.startswith('run/logs/') and f.split('/')[2] in finished}
            m.check(all(now.get(f) == v for f, v in keep.items()), 'finished trajectories changed')
            order = sorted(new, key=lambda w: os.stat(os.path.join(root, 'run/logs', w, 'meta.yaml')).st_mtime_ns)
            if order != sorted(order):
                m.event('schedules (order of finishing)')
            bases = {}
            for w in sorted(new):
                m.event('trajectories audited')
                meta = yaml.safe_load(now['run/logs/{}/meta.yaml'.format(w)])
                m.check(isinstance(meta, dict) and len(meta['run_ids']) == len(meta['deltas']) ==
                        len(meta['factors_ids']) == dim, 'complete meta data', meta)
                m.check(sorted(map(str, meta['factors_ids'])) == sorted(labels), 'factors of a trajectory',
                        lambda: (meta['factors_ids'], labels))
                sols = []
                for r in [meta['base_run_id']] + meta['run_ids']:
                    f = 'run/logs/{}/{}/solution.csv'.format(w, r)
                    m.check(f in now, 'run of a finished trajectory is missing', f)
                    m.event('full logs', full)
                    there = sorted(k[len(f) - 12:] for k in now if k.startswith(f[:-12]))
                    m.check((len(there) > 1) == full and (not full or {'rates.csv', 'wall_fluxes.csv'} <= set(there)),
                            'extent of the logs of a run', lambda: (f, there, full))
                    df = pd.read_csv(os.path.join(root, f), index_col=0)
                    m.check(len(df) >= 2 and df['t'].iloc[0] == 0. and
                            abs(df['t'].iloc[-1] / p['t_end'] - 1) < 1e-12 and not df.isnull().values.any(),
                            'solution of a run', f)
                    sols.append(now[f])
                if seed:
                    m.event('trajectories with a given seed')
                    m.check(len({b[:2] for b in bases.values()} | {(tuple(map(str, meta['factors_ids'])), tuple(meta['deltas']))}) == 1,
                            'trajectories with the same seed differ')
                bases[w] = (tuple(map(str, meta['factors_ids'])), tuple(meta['deltas']), tuple(sols))
            sensitive = all(len(set(b[2])) > 2 for b in bases.values())
            if len(bases) > 2 and dim > 2 and sensitive and not seed:       # two may be the same by chance
                m.event('independent trajectories')
                m.check(len(set(bases.values())) > 1, 'all trajectories run in parallel are the same')
            meta_files = {f: v for f, v in now.items() if f.startswith('run/meta/')}
            if got:
                m.check(set(meta_files) == {'run/meta/chemistry_attributes.yaml', 'run/meta/model_parameters.yaml',
                                            'run/meta/meta.yaml'}, 'meta data of a run', sorted(meta_files))
                for f, v in meta_files.items():
                    m.check(isinstance(yaml.safe_load(v) if 'meta.yaml' in f else
                                       yaml.load(v, yaml.FullLoader), dict), 'meta data of a run', f)
                st = MorrisMethod.get_morris_stats(logs_dir=os.path.join(root, 'run', 'logs'), times=[p['t_end']])
                m.check(len(st.mu[0]) == dim, 'statistics of a run')
            finished = got
            m.check(not hist.diff(own, hist.values(chem)), 'chemistry of the method changed')
            if n >= 3 and cores >= 2:
                m.signature(gen.describe(spec), n, cores, step)
            if step == 0 and fail_rate and rng.random() < .7:
                fail_rate = 0
    finally:
        yaml.dump = real_dump
        os.mkdir = real_mkdir
    before = tree(root)
    m.raises(ValueError, 'one trajectory id for a batch', mm.run_morris, 'run', kind, 2, 1, traj_id='traj001',
             morris_results_dir=root)
    m.raises(ValueError, 'return coefficients not given', mm.run_morris, 'run', 'return_coefficients', 2, 1,
             morris_results_dir=root)
    m.event('refused runs', 2)
    m.check(tree(root) == before, 'refused run changed the logs')
