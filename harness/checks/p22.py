"""Production and consumption processes of a species add up to what the model does to it."""
import contextlib
import io
import re

import numpy as np
import pandas as pd

from harness import gen, hist, odes

RULE = ('random chemistry with random sticking and return coefficients in a random state, with random rates and wall '
        'fluxes, or those of a random state of the model; every process of every species in volume and on surfaces is '
        'compared with the stoichiometry and the return coefficients, the sums with the source terms of the model, and '
        'what is printed with what is returned; non-trivial: a species with production and loss, in volume and on walls')
QUICK, THOROUGH = 500, 6000
MIN_EVENTS = {'volumetric processes': 953, 'surface processes': 248, 'sums compared with the model': 115,
              'printed lines': 870, 'cut listings': 65, 'inconsistent frames refused': 121, 'fluxes in another order': 80, 'equal rates': 20}


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def printed(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(*a, **k)
    return buf.getvalue()


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.results import ResultsParser as RP
    spec = odes.gen_model_spec(rng, surface=rng.choice(['random', 'random', 'physical']))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .7:
        h.random_state()
    ref = h.ref
    ids, rids = ref.species_ids(), ref.reaction_ids()
    p = odes.gen_params(rng, spec, ref=ref)
    names = [ref.sp[s]['name'] for s in ids]
    area = 2 * np.pi * p['radius'] * (p['radius'] + p['length'])
    volume = np.pi * p['radius'] ** 2 * p['length']
    eq = y = None
    if rng.random() < .5:
        eq = Equations(chem, dict(p))
        y = odes.gen_state(rng, ref, p, hostile=False)
        rates = dict(zip(rids, map(float, eq.get_reaction_rates(y))))
        flux = dict(zip(ids, map(float, eq.get_wall_fluxes(y))))
        if not np.isfinite(list(rates.values()) + list(flux.values())).all():
            m.event('states outside of the domain')
            eq = None
            rates = {r: 1e20 for r in rids}
            flux = {s: -1e15 if ref.stick(s) else 0. for s in ids}
    else:
        low = rng.choice([-20, 10])
        rates = {r: 10 ** rng.uniform(low, 25) if rng.random() < .9 else 0. for r in rids}
        flux = {s: -10 ** rng.uniform(low, 20) if ref.stick(s) else 0. for s in ids}
        if rng.random() < .3:       # processes which are equally fast
            fast = [10 ** rng.uniform(low, 25) for _ in range(2)]
            rates = {r: rng.choice(fast) if v else v for r, v in rates.items()}
            slow = -10 ** rng.uniform(low, 20)
            flux = {s: slow if v else v for s, v in flux.items()}
            m.event('equal rates')
    rf = pd.Series(rates, dtype=float)
    wf = pd.Series({ref.sp[s]['name']: v for s, v in flux.items()}, dtype=float)
    if rng.random() < .5:
        rf = pd.concat([pd.Series({'t': 1.}), rf])
        wf = pd.concat([pd.Series({'t': 1.}), wf])
    if rng.random() < .5:
        rf = rf.sample(frac=1, random_state=rng.randrange(1000))
    keep = rf.copy(), wf.copy()
    both = False
    for s in ids + [s for s in ref.species_ids(special=True) if s not in ids]:
        who = h.ident(s)
        special = s not in ids
        vol = {r: ref.stoich(r, s, 'net') * rates[r] for r in rids if ref.stoich(r, s, 'net')}
        got = RP.get_volumetric_rates(who, chem, rf)
        m.check(set(got.index) == set(vol) and len(got) == len(vol), 'volumetric processes of a species',
                lambda: (ref.sp[s]['name'], list(got.index), sorted(vol)))
        for r in vol:
            m.event('volumetric processes')
            m.check(near(got[r], vol[r]), 'rate of a volumetric process', lambda: (ref.sp[s]['name'], r, got[r], vol[r]))
        m.check((np.diff(got.values) <= 0).all(), 'volumetric processes are not sorted', lambda: got.values.tolist())
        surf = {}
        if not special:
            for k in ids:
                v = (1. if k == s else 0.) * flux[k] - flux[k] * ref.ret(k).get(ref.sp[s]['name'], 0.)
                if v:
                    surf[k] = v * area / volume
        gs = RP.get_surface_rates(who, chem, p, wf)
        m.check(set(gs.index) == set(surf) and len(gs) == len(surf), 'surface processes of a species',
                lambda: (ref.sp[s]['name'], list(gs.index), sorted(surf)))
        for k in surf:
            m.event('surface processes')
            m.check(near(gs[k], surf[k]), 'rate of a surface process', lambda: (ref.sp[s]['name'], k, gs[k], surf[k]))
        m.check((np.diff(gs.values) <= 0).all(), 'surface processes are not sorted', lambda: gs.values.tolist())
        if eq is not None and not special:
            m.event('sums compared with the model')
            k = ids.index(s)
            exp = eq.get_volumetric_source_rates(y)[k], eq.get_diffusion_source_rates(y)[k]
            sc = (sum((ref.stoich(r, s, 'lhs') + ref.stoich(r, s, 'rhs')) * rates[r] for r in rids),
                  sum(abs(v) for v in flux.values()) * area / volume)      # what the model adds up before it cancels
            for a, b, sc in zip((got.sum(), gs.sum()), exp, sc):
                m.check(abs(a - b) <= 1e-12 * sc + 1e-10 * abs(a) + 1e-300, 'processes do not add up to what the model does',
                        lambda: (ref.sp[s]['name'], a, b))
        # readable labels
        lab = RP.get_volumetric_rates(who, chem, rf, annotate=True)
        m.check([x.split()[0] for x in lab.index] == ['R{}'.format(r) for r in got.index] and
                list(lab.values) == list(got.values), 'annotated volumetric processes')
        for x, r in zip(lab.index, got.index):
            m.check(x.split(None, 1)[1].strip() == str(chem.get_reaction(r)), 'label of a volumetric process', x)
        lab = RP.get_surface_rates(who, chem, p, wf, annotate=True)
        m.check([x.split()[0] for x in lab.index] == ['S{}'.format(k) for k in gs.index] and
                list(lab.values) == list(gs.values), 'annotated surface processes')
        for x, k in zip(lab.index, gs.index):
            exp = '{} + wall > {}'.format(ref.sp[k]['name'], '' if k == s else ref.sp[s]['name'] + ' + ')
            m.check(x.split(None, 1)[1].strip() == exp + 'wall', 'label of a surface process', x)
        # printed
        everything = [('R{}'.format(r), v) for r, v in vol.items()] + [('S{}'.format(k), v) for k, v in surf.items()]
        for fn, sign in ((RP.print_production_processes, 1), (RP.print_consumption_processes, -1)):
            want = sorted([(sign * v, k) for k, v in everything if sign * v > 0], reverse=True)
            unit, fac = rng.choice([('m-3/s', 1.), ('cm-3/s', 1e-6), ('cm-3.s-1', 1e-6)])
            n = rng.choice([None, 1, 2, 5, len(want), len(want) + 3])
            kw = {} if n is None and unit == 'm-3/s' else {'n': n, 'unit': unit}
            text = printed(fn, who, chem, p, rf, wf, **kw)
            lines = [ln for ln in text.splitlines() if re.match(r'[RS]\d+\s', ln)]
            cut = want if n is None else want[:n]
            m.check(len(lines) == len(cut), 'number of printed processes', lambda: (text, want))
            m.check(('...' in text) == (n is not None and n < len(want)), 'mark of a cut listing', lambda: (text, n))
            if len(cut) < len(want):
                m.event('cut listings')
            byname = dict((k, v) for v, k in want)
            for ln, (v, k) in zip(lines, cut):
                m.event('printed lines')
                val = float(ln.split()[-1])
                m.check(near(val, sign * v * fac, 2e-5) or abs(val - sign * v * fac) < 1e-6, 'printed rate', lambda: (ln, v * fac, text))
                own = byname.get(ln.split()[0], 0.) * fac
                m.check(near(sign * val, own, 2e-5) or abs(sign * val - own) < 1e-6, 'printed process', lambda: (ln, text))
        if surf and len({v > 0 for v in vol.values()}) == 2:
            both = True
    # frames in another order are refused, or give the same
    if len(ids) > 1:
        s = rng.choice(ids)
        other = wf.sample(frac=1, random_state=rng.randrange(1000))
        want = RP.get_surface_rates(s, chem, p, wf)
        try:
            got = RP.get_surface_rates(s, chem, p, other)
            m.check(sorted(got.index) == sorted(want.index) and np.allclose(got[want.index], want), 'wall fluxes in another order',
                    lambda: (got.to_dict(), want.to_dict()))
        except AssertionError:
            pass
        m.event('fluxes in another order')
    m.check(rf.equals(keep[0]) and wf.equals(keep[1]), 'passed frames were changed')
    # frames of another chemistry
    for fr, fn in ((rf, lambda f: RP.get_volumetric_rates(ids[0], chem, f)),
                   (wf, lambda f: RP.get_surface_rates(ids[0], chem, p, f))):
        bad = [pd.concat([fr, pd.Series({rng.choice([998, 'X']): 1.})])]
        if len(fr.index.drop('t', errors='ignore')) > 1:
            bad.append(fr.drop(rng.choice(list(fr.index.drop('t', errors='ignore')))))
        for b in bad:
            m.event('inconsistent frames refused')
            m.raises(AssertionError, 'rates of another chemistry', fn, b)
    if both:
        m.signature(gen.describe(spec), sorted(ref.en_r), p)
        m.sample({'chemistry': gen.describe(spec), 'species': names})
