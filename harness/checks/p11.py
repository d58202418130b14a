"""Volumetric processes conserve atoms and charge in every state."""
from harness import gen, hist, odes

RULE = ('random chemistry, random disabling/ad-hoc history, random states: element and charge balance of the source '
        'terms the model reports, computed with the atoms and charges of the spec, per state and summed over random '
        'subsets of reactions; non-trivial: at least 4 reactions, one changing the number of particles')
QUICK, THOROUGH = 1000, 6500
MIN_EVENTS = {'element balances': 350, 'charge balances': 200, 'single reactions': 700, 'walls balanced': 80,
              'mass action checks': 300}


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    import numpy as np
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    surface_touched = rng.random() < .4
    if rng.random() < .6:
        h.random_state(adhoc=surface_touched)
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    eq = Equations(chem, odes.passed(rng, p))
    ids, rids = ref.species_ids(), ref.reaction_ids()
    sp = ref.sp
    e = ref.by_name['e']
    els = sorted({el for s in ids for el in sp[s]['atoms']})
    for _ in range(3):
        y = odes.gen_state(rng, ref, p)
        rates = np.array(eq.get_reaction_rates(y))
        m.check(len(rates) == len(rids) and np.isfinite(rates).all() and (rates >= 0).all(), 'rates of reactions',
                lambda: rates.tolist())
        src = np.array(eq.get_volumetric_source_rates(y))
        m.check(len(src) == len(ids), 'length of the source')
        contrib = {s: sum(abs(ref.stoich(j, s, 'net')) * k for j, k in zip(rids, rates)) for s in ids}

        def balance(source, contrib, what):
            for el in els:
                tot = sum(sp[s]['atoms'].get(el, 0) * v for s, v in zip(ids, source))
                tol = 1e-9 * sum(sp[s]['atoms'].get(el, 0) * contrib[s] for s in ids)
                m.event('element balances')
                m.check(abs(tot) <= tol, 'atoms not conserved by ' + what, lambda: '{}: {} of {}'.format(el, tot, tol))
        balance(src, contrib, 'the volumetric source')
        q = sum(sp[s]['q'] * v for s, v in zip(ids, src))
        q_e = sum(ref.stoich(j, e, 'net') * k for j, k in zip(rids, rates))
        tol = 1e-9 * (sum(abs(sp[s]['q']) * contrib[s] for s in ids) +
                      sum(abs(ref.stoich(j, e, 'net')) * k for j, k in zip(rids, rates)))
        m.event('charge balances')
        m.check(abs(q - q_e) <= tol, 'charge not conserved', lambda: (q, q_e, tol))
        # one reaction at a time: the source of rates which are zero but for one
        for j in rng.sample(range(len(rids)), min(4, len(rids))):
            one = np.zeros(len(rids))
            one[j] = rates[j] or 1.
            s1 = np.array(eq.get_volumetric_source_rates(y, rates=one))
            exp = [ref.stoich(rids[j], s, 'net') * one[j] for s in ids]
            m.event('single reactions')
            m.check(all(abs(a - b) <= 1e-12 * one[j] * 4 for a, b in zip(s1, exp)), 'source of a single reaction',
                    lambda: (rids[j], s1.tolist(), exp))
        # law of mass action: the rate is multilinear in the densities of its reactants
        s = rng.choice(ids)
        k = ids.index(s)
        y2 = y.copy()
        y2[k] *= 2
        ne1, ne2 = (sum(sp[x]['q'] * v for x, v in zip(ids, yy[:-1])) for yy in (y, y2))
        if ne2 > 0:
            y2[-1] = y[-1] * ne2 / ne1         # same electron temperature
            t1, t2 = eq.get_electron_temperature(y), eq.get_electron_temperature(y2)
            r2 = np.array(eq.get_reaction_rates(y2))
            n1, n2 = y[:-1].sum(), y2[:-1].sum()
            for j, a, b in zip(rids, rates, r2):
                f = 2. ** ref.r[j]['lhs'].count(s) * (ne2 / ne1) ** ref.r[j]['lhs'].count(e)
                if 'M' in ref.by_name:
                    f *= (n2 / n1) ** ref.r[j]['lhs'].count(ref.by_name['M'])
                m.event('mass action checks')
                m.check(abs(b - f * a) <= 1e-6 * max(b, f * a), 'law of mass action',
                        lambda: (j, a, b, f, t1, t2))
        # returned particles of a physical surface
        if not surface_touched and len(ids) == len(ref.species_ids(disabled=True)):
            sinks = np.array(eq.get_diffusion_sinks(y))
            net = np.array(eq.get_diffusion_source_rates(y))
            m.event('walls balanced')
            for el in els:
                tot = sum(sp[x]['atoms'].get(el, 0) * v for x, v in zip(ids, net))
                lost = sum(sp[x]['atoms'].get(el, 0) * abs(v) for x, v in zip(ids, sinks))
                m.check(abs(tot) <= 1e-9 * lost, 'atoms not conserved by walls which return them all',
                        lambda: (el, tot, lost))
    if len(rids) >= 4 and any(len(ref.r[j]['lhs']) != len(ref.r[j]['rhs']) for j in rids):
        m.signature(gen.describe(spec), rids, p)
        m.sample({'chemistry': gen.describe(spec), 'source': src.tolist(), 'elements': els})
