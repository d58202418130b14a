"""Couplings of species and their ranking are those of the documented definitions."""
import math

import numpy as np
import pandas as pd

from harness import gen, hist, odes
from harness.checks.p24 import min_cut

RULE = ('random chemistry with random sticking and return coefficients in a random state, random rates and wall fluxes at '
        'several times; the weights of all four schemes, with and without walls, against scalar sums over reactions and '
        'walls, and the ranking of all four searches against all-pairs iteration and cuts on those weights; then '
        'inconsistent frames and unknown methods; non-trivial: at least 4 ranked species and 2 times')
QUICK, THOROUGH = 500, 8000
MIN_EVENTS = {'weights compared': 6000, 'absent edges': 2000, 'rankings': 200, 'scores compared': 511, 'refused': 700,
              'methods: DRG': 60, 'methods: DRG1': 60, 'methods: DRG2': 60, 'methods: DRGEP': 60}
INF = math.inf


def weights(ref, rates, flux, av, method, surface):
    """{(b, a): (weight, relative tolerance)} by name; weight None where rounding decides whether there is an edge."""
    ids = ref.species_ids(special=True)
    rids = ref.reaction_ids()
    surf = {}
    for b in ids:
        if ref.sp[b]['special'] or not surface:
            continue
        s = flux[b] * av
        for a in ids:
            if ref.sp[a]['special']:
                continue
            own = s if a == b else 0.
            ret = -s * ref.ret(b).get(ref.sp[a]['name'], 0.)
            surf[b, a] = own + ret, abs(own) + abs(ret)
    net = {(j, a): ref.stoich(j, a, 'net') for j in rids for a in ids}
    inv = {(j, a): bool(ref.stoich(j, a, 'lhs') + ref.stoich(j, a, 'rhs')) for j in rids for a in ids}
    out = {}
    for a in ids:
        vol = [(net[j, a] * rates[j], j) for j in rids]
        walls = [surf.get((b, a), (0., 0.))[0] for b in ids]
        gross = math.fsum(abs(v) for v, _ in vol) + math.fsum(abs(v) for v in walls)
        if method == 'DRG':
            norm = gross
        elif method in ('DRG1', 'DRG2'):
            norm = abs(math.fsum([v for v, _ in vol] + walls))
        else:
            norm = max(math.fsum([v for v, _ in vol if v > 0] + [v for v in walls if v > 0]),
                       math.fsum([-v for v, _ in vol if v < 0] + [-v for v in walls if v < 0]))
        for b in ids:
            if a == b:
                continue
            parts = [v for v, j in vol if inv[j, b]] + [surf.get((b, a), (0., 0.))[0]]
            tot = math.fsum(abs(v) for v in parts)
            r = tot if method in ('DRG', 'DRG1') else abs(math.fsum(parts))
            key = ref.sp[b]['name'], ref.sp[a]['name']
            if tot == 0 or gross == 0:
                out[key] = 0., 0.
            elif r <= 1e-11 * tot or norm <= 1e-9 * gross:
                out[key] = None, 0.
            else:
                out[key] = r / norm, 1e-13 * (tot / r + gross / norm) + 1e-12
    return out


def reference_scores(names, w, target, search):
    """Best score of every species towards the target."""
    res = {}
    if search == 'max_flow':
        cap = {e: v for e, v in w.items() if v}
        nodes = sorted({x for e in cap for x in e} | {target})
        if len(nodes) > 11:
            return None
        return {s: min_cut(nodes, cap, s, target) if s in nodes and s != target else 0. for s in names}
    best = {s: 0. for s in names}       # as a score to maximise
    if search == 'max_bottleneck':
        best[target], step = INF, min
    elif search == 'max_product':
        best[target], step = 1., lambda x, y: x * y
    else:
        best[target], step = INF, lambda x, y: 1. / (1. / x + 1. / y) if x and y else 0.
    for _ in names:
        for (u, v), x in w.items():
            if x:
                s = step(best[v], x)
                if u != target and s > best[u]:
                    best[u] = s
    return best


def case(m, rng, i):
    from pygmo_fwork.optichem.graph import ChemistryGraph
    from pygmo_fwork.optichem.exceptions import GraphInitError
    spec = odes.gen_model_spec(rng, surface=rng.choice(['random', 'random', 'physical']))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .6:
        h.random_state()
    ref = h.ref
    ids, rids = ref.species_ids(), ref.reaction_ids()
    names = [ref.sp[s]['name'] for s in ids]
    if rng.random() < .15:      # more comes back than what was lost
        s = rng.choice(ids)
        ref.adhoc_ret[s] = dict(ref.ret(s), **{ref.sp[s]['name']: round(rng.uniform(1, 3), 3)})
        chem.set_adhoc_species_attributes('ret_coefs', s, dict(ref.adhoc_ret[s]))
        m.event('more returned than lost')
    every = [ref.sp[s]['name'] for s in ref.species_ids(special=True)]
    special = {ref.sp[s]['name'] for s in ref.species_ids(special=True)} - set(names)
    p = odes.gen_params(rng, spec, ref=ref)
    av = 2 * (p['radius'] + p['length']) / (p['radius'] * p['length'])
    nt = rng.choice([1, 2, 2, 3])
    t0 = 10 ** rng.uniform(-5, 0)
    times = [t0 * (1 + (1e-6 if rng.random() < .3 else .5) * k) for k in range(nt)]
    whole = rng.random() < .3
    rates = [{r: (0. if rng.random() < .08 else float(rng.randint(1, 3)) if whole else 10 ** rng.uniform(12, 22))
              for r in rids} for _ in times]
    flux = [{s: -(1. if whole else 10 ** rng.uniform(12, 20)) if ref.stick(s) else 0. for s in ids} for _ in times]
    index = rng.choice([list(range(nt)), [5 + 3 * k for k in range(nt)], [0] * nt])
    rf = pd.DataFrame([[t] + [x[r] for r in rids] for t, x in zip(times, rates)], columns=['t'] + rids, index=index)
    wf = pd.DataFrame([[t] + [x[s] for s in ids] for t, x in zip(times, flux)], columns=['t'] + names, index=index)
    keep = rf.copy(), wf.copy()
    m.note(rates=rates, fluxes=flux, state=sorted(ref.en_sp))
    g = ChemistryGraph(chem, rng.choice([p, {'radius': p['radius'], 'length': p['length']}]), rf, wf)
    m.event('refused')
    m.raises(ValueError, 'ranking without weights', g.get_ranking, names[:1])
    methods = ['DRG', 'DRG1', 'DRG2', 'DRGEP']
    rng.shuffle(methods)
    for method in methods[:rng.randint(2, 4)]:
        surface = rng.random() < .7
        m.event('methods: ' + method)
        if method == 'DRG' and surface and rng.random() < .5:
            g.distribute_weights()
        else:
            g.distribute_weights(weighting_method=method, surface=surface)
        m.check(len(g.graphs) == nt, 'number of graphs')
        all_w, decided = [], True
        for k in range(nt):
            w = weights(ref, rates[k], flux[k], av, method, surface)
            real = {}
            for (b, a), (v, tol) in w.items():
                has = g.graphs[k].has_edge(b, a)
                if v is None:
                    decided = False
                    continue
                m.check(has == (v != 0), method + ': edge missing or made up', lambda: (b, a, v, has))
                if not has:
                    m.event('absent edges')
                    continue
                got = g.graphs[k].get_edge_attributes(b, a)['weight']
                m.event('weights compared')
                m.check(abs(got - v) <= tol * v, method + ': weight', lambda: (b, a, got, v))
                real[b, a] = v
            m.check(set(g.graphs[k].get_nodes()) <= set(every), 'nodes which are no species')
            m.check(all(u != v for u, v in g.graphs[k].get_edges()), 'species coupled to itself')
            all_w.append(real)
        # ranking
        important = rng.sample(every, rng.randint(1, min(3, len(every))))
        search = rng.choice(['shortest_path', 'shortest_path', 'max_bottleneck', 'max_product', 'max_flow'])
        if search == 'max_product' and any(x > 1 + 1e-9 for w in all_w for x in w.values()):
            m.event('products of weights above one')
            continue
        if search == 'shortest_path' and rng.random() < .5:
            rank = g.get_ranking(important)
        else:
            rank = g.get_ranking(important, search_method=search)
        m.event('rankings')
        want = set(every) - special - set(important)
        m.check(set(rank.index) == want and len(rank) == len(want), 'ranked species',
                lambda: (list(rank.index), sorted(want)))
        vals = [float(x) for x in rank.values]
        good = [x for x in vals if x == x]
        m.check(good == sorted(good), 'ranking is not sorted', lambda: vals)
        if not decided:
            continue
        score = {s: 0. for s in want}
        certain = True
        for w in all_w:
            for target in important:
                best = reference_scores(every, w, target, search)
                if best is None:
                    certain = False
                    break
                for s in want:
                    if search == 'max_product' and best[s] > 1 - 1e-9:
                        score[s] = None     # paths of no length are documented not to be handled
                    elif score[s] is not None:
                        score[s] = max(score[s], best[s])
        if not certain:
            continue
        for s in want:
            if score[s] is None:
                continue
            m.event('scores compared')
            got = float(rank[s])
            m.check(abs(got - score[s]) <= 1e-7 * score[s], search + ': score of a species', lambda: (s, got, score[s]))
            if score[s] == 0:
                m.event('uncoupled species')
        if len(want) >= 4 and nt > 1:
            m.signature(gen.describe(spec), method, search, sorted(ref.en_r), times)
            m.sample({'chemistry': gen.describe(spec), 'ranking': {s: float(rank[s]) for s in rank.index},
                      'method': method, 'search': search, 'important': important})
    m.check(rf.equals(keep[0]) and wf.equals(keep[1]), 'passed frames were changed')
    m.event('refused', 2)
    m.raises(NotImplementedError, 'unknown weighting', g.distribute_weights, rng.choice(['DRGX', 'drg', '']))
    g.distribute_weights()
    m.raises(ValueError, 'unknown search', g.get_ranking, names[:1], search_method='shortest')
    bads = [(rf.assign(t=[t + 1. for t in times]), wf), (rf, wf.assign(X=1.)), (rf.assign(**{'x': 1.}), wf)]
    if len(names) > 1:
        bads.append((rf, wf.drop(columns=rng.choice(names))))
        bads.append((rf, wf[['t'] + names[1:] + names[:1]]))
    if len(rids) > 1:
        bads.append((rf.drop(columns=rng.choice(rids)), wf))
        bads.append((rf[['t'] + rids[1:] + rids[:1]], wf))
    for a, b in bads:
        m.event('refused')
        m.raises(GraphInitError, 'frames of another chemistry', ChemistryGraph, chem, p, a, b)
