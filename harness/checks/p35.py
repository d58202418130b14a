"""Neutral-only chemistries and their model."""
import math

import numpy as np
from scipy import constants as c

from harness import gen, hist, odes

RULE = ('random chemistries of neutral species (with M, ad-hoc values and disabled parts), random parameters and states: '
        'the right-hand side and all partial quantities against scalar loops, runs against an integration of these, rates '
        'and fluxes of every row; charged species are refused; non-trivial: a returned species and at least 3 reactions')
QUICK, THOROUGH = 300, 9000
CASE_LIMIT = 30
MIN_EVENTS = {'right-hand sides compared': 300, 'partial quantities compared': 3000, 'runs': 60, 'rows compared': 500,
              'runs integrated again': 8, 'charged species refused': 100, 'after reduction': 20, 'without feeds': 10,
              'copies': 39}


class NeutralRef(gen.Ref):
    def disable_outcome(self, dis_sp, dis_r):
        ds, dr = self.closure(dis_sp, dis_r)
        return not (ds & self.en_sp & self.all_protected()), ds, dr


def gen_neutral(rng):
    for _ in range(60):
        spec = odes.gen_model_spec(rng, n_heavy=rng.choice([4, 6, 8, 9]), n_reactions=rng.randint(6, 24))
        neutral = {s['id'] for s in spec['species'] if s['q'] == 0 or s['name'] == 'M'}
        rs = [r for r in spec['reactions'] if set(r['lhs'] + r['rhs']) <= neutral]
        used = {i for r in rs for i in r['lhs'] + r['rhs']}
        sp = [s for s in spec['species'] if s['id'] in used]
        names = {s['name'] for s in sp}
        if len(rs) < 2 or sum(not s['special'] for s in sp) < 2:
            continue
        if any(not set(s['ret_coefs'] or {}) <= names for s in sp):
            continue
        return {'species': sp, 'reactions': rs}, spec
    return None, None


def neutral_reference(ref, p, y):
    ids, rids, sp, rs = ref.species_ids(), ref.reaction_ids(), ref.sp, ref.r
    n = dict(zip(ids, (float(v) for v in y[:-1])))
    tg, p0, rad, length = p['temp_gas'], p['pressure'], p['radius'], p['length']
    mass = {i: sp[i]['mass'] * c.atomic_mass for i in ids}
    m_id = ref.by_name.get('M')
    volume, area = math.pi * rad ** 2 * length, 2 * math.pi * rad * (rad + length)
    lam = ((math.pi / length) ** 2 + (2.405 / rad) ** 2) ** -.5
    n_tot = math.fsum(n.values())
    pres = c.k * tg * n_tot
    k_r = {j: ref.arrh_a(j) * (tg / 300) ** rs[j]['b'] * math.exp(-rs[j]['c'] / tg) for j in rids}
    rates = {j: k_r[j] * math.prod(n_tot if i == m_id else n[i] for i in rs[j]['lhs']) for j in rids}
    vol = {i: math.fsum(ref.stoich(j, i, 'net') * rates[j] for j in rids) for i in ids}
    vol_abs = {i: math.fsum(abs(ref.stoich(j, i, 'net')) * rates[j] for j in rids) for i in ids}
    inflow = {i: p['feeds'].get(sp[i]['name'], 0.) * odes.SCCM / volume for i in ids}
    tot = math.fsum(inflow.values())
    flow = {i: inflow[i] - tot * n[i] / n_tot - (pres - p0) / p0 * n[i] / 1e-3 for i in ids}
    flow_abs = {i: inflow[i] + tot * n[i] / n_tot + (pres + p0) / p0 * n[i] / 1e-3 for i in ids}
    v = {i: math.sqrt(8 * c.k * tg / (math.pi * mass[i])) for i in ids}
    sigma = {(i, k): 0. if i == k else ((sp[i]['lj_sigma'] + sp[k]['lj_sigma']) * 1e-10) ** 2 for i in ids for k in ids}
    mfp = {i: 1 / math.fsum(n[k] * sigma[i, k] for k in ids) for i in ids}
    d = {i: math.pi / 8 * mfp[i] * v[i] for i in ids}
    flux = {i: -d[i] * n[i] * ref.stick(i) / (ref.stick(i) * lam + 4 * d[i] / v[i]) if ref.stick(i) else 0. for i in ids}
    sinks = {i: flux[i] * area / volume for i in ids}
    src = {i: math.fsum(-sinks[k] * ref.ret(k).get(sp[i]['name'], 0.) for k in ids) for i in ids}
    cor = {i: (1. - n[i]) / 1e-10 if n[i] < 1. else 0. for i in ids}
    dn = {i: vol[i] + flow[i] + sinks[i] + src[i] + cor[i] for i in ids}
    dn_abs = {i: vol_abs[i] + flow_abs[i] - sinks[i] + src[i] + cor[i] for i in ids}
    lst = lambda x: [x[i] for i in ids]
    rl = lambda x: [x[j] for j in rids]
    out = dict(total_density=n_tot, total_pressure=pres, reaction_rate_coefficients=rl(k_r), reaction_rates=rl(rates),
               volumetric_source_rates=lst(vol), flow_source_rates=lst(flow), mean_speeds=lst(v),
               mean_free_paths=lst(mfp), free_diffusivities=lst(d), diffusivities=lst(d), wall_fluxes=lst(flux),
               diffusion_sinks=lst(sinks), diffusion_sources=lst(src), min_n_correction=lst(cor), dn_dt=lst(dn),
               diffusion_source_rates=[sinks[i] + src[i] for i in ids], electron_density=0.)
    scale = dict(volumetric_source_rates=lst(vol_abs), flow_source_rates=lst(flow_abs), dn_dt=lst(dn_abs),
                 diffusion_source_rates=[src[i] - sinks[i] for i in ids])
    return out, scale


def case(m, rng, i):
    from plaschem.exceptions import ChemistryConsistencyError, ChemistryDisableError
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry, NeutralModel, NeutralEquations
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError, InitialSolutionError
    spec, full = gen_neutral(rng)
    if spec is None:
        m.event('no neutral chemistry')
        return
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec, NeutralChemistry)
    ref = NeutralRef(spec)
    # charged species have no place here
    m.raises(ChemistryConsistencyError, 'neutral chemistry with charged species', gen.build, full, NeutralChemistry)
    m.raises(AssertionError, 'neutral model of a chemistry with charged species', NeutralModel, gen.build(full),
             odes.passed(rng, odes.gen_params(rng, full)))
    m.event('charged species refused', 2)
    heavy = ref.species_ids()
    sticky = [s for s in heavy if ref.stick(s)]
    if rng.random() < .4:
        s = rng.choice(heavy)
        ref.adhoc_stick[s] = round(rng.random(), 3)
        others = [x for x in heavy if x != s]
        k = rng.choice(others)
        ref.adhoc_ret[s] = {ref.sp[k]['name']: round(rng.uniform(.1, 1.), 3), ref.sp[s]['name']: .25}
        chem.set_adhoc_species_attributes('stick_coef', s, ref.adhoc_stick[s])
        chem.set_adhoc_species_attributes('ret_coefs', s, dict(ref.adhoc_ret[s]))
    if rng.random() < .3:
        s = rng.choice(heavy)
        chem.set_protected_species(s)
        ref.protected |= {s}
    for _ in range(rng.choice([0, 0, 1, 2])):
        sp = [rng.choice(heavy)] if rng.random() < .4 else []
        rs = [] if sp else [rng.choice(ref.rorder)]
        trial = ref.clone()
        ok = trial.disable(sp, rs)
        if ok and len(trial.species_ids()) < 2:
            continue
        if ok:
            chem.disable(species=sp, reactions=rs)
            ref = trial
        else:
            m.raises(ChemistryDisableError, 'protected species disabled', chem.disable, species=sp, reactions=rs)
        if len(ref.en_sp) < len(ref.order):
            m.event('after reduction')
    m.check(list(chem.get_species_name(special=True)) == [ref.sp[s]['name'] for s in ref.species_ids(special=True)],
            'species of the neutral chemistry')
    m.check(list(chem.get_reactions_id()) == ref.reaction_ids(), 'reactions of the neutral chemistry')
    m.check(not chem.get_species_charge().any(), 'charge of neutral species')
    for method in ('lhs', 'rhs', 'net'):
        e = chem.get_reactions_stoich_coefs_electron(method=method)
        m.check(list(e.index) == ref.reaction_ids() and not e.any(), 'electrons of the neutral chemistry')
    if rng.random() < .4:
        other = chem.copy()
        m.check(type(other) is NeutralChemistry and list(other.get_species()) == list(chem.get_species()) and
                list(other.get_reactions_id()) == ref.reaction_ids(), 'copy of the neutral chemistry')
        m.event('copies')
        chem = other
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    if not p['feeds']:
        m.event('without feeds')
    passed = odes.passed(rng, p)
    model = NeutralModel(chem, passed)
    eq = NeutralEquations(chem, model.model_params)
    func, jac = eq.get_objective_functions()
    ids = ref.species_ids()
    names = [ref.sp[s]['name'] for s in ids]
    n_tot = p['pressure'] / (c.k * p['temp_gas'])
    for _ in range(3):
        y = np.array([n_tot * 10 ** rng.uniform(-6, .5) for _ in ids] + [0.])
        if len(ids) > 2 and rng.random() < .3:
            y[rng.randrange(len(ids))] = rng.choice([.3, 1e-6, 1.01])
        out, scale = neutral_reference(ref, p, y)
        t = rng.choice([0., p['t_end'], rng.uniform(0, p['t_end'])])
        got = func(t, y.copy()).tolist()
        m.event('right-hand sides compared')
        m.check(len(got) == len(y) and got[-1] == 0. and odes.close(out['dn_dt'], got[:-1], scale['dn_dt']),
                'right-hand side of the neutral model', lambda: (y.tolist(), out['dn_dt'], got))
        m.check(odes.close(out['dn_dt'] + [0.], eq.get_dy_dt(t, y).tolist(), scale['dn_dt'] + [0.]),
                'derivative of the neutral model')
        for key, exp in out.items():
            g = getattr(eq, 'get_' + key)(y)
            g = g.tolist() if hasattr(g, 'tolist') else g
            m.event('partial quantities compared')
            m.check(odes.close(exp, g, scale.get(key)), 'quantity ' + key, lambda: (y.tolist(), exp, g))
        m.check(math.isnan(eq.get_electron_temperature(y)), 'electron temperature without electrons')
    # runs
    if rng.random() < .5:
        n0, kw = None, {}
    else:
        n0 = {nm: n_tot * 10 ** rng.uniform(-5, 0) for nm in rng.sample(names, len(names))}
        kw = {'init_n': n0}
        bad = dict(n0)
        bad.pop(names[0])
        m.raises(InitialSolutionError, 'initial state without a species', model.run, init_n=bad)
        m.raises(InitialSolutionError, 'initial state with another species', model.run, init_n=dict(n0, Xx=1.))
    try:
        model.run(**kw)
    except ModelSolutionError:
        m.check(not model.success(), 'a failed run counts as a success')
        m.event('failed runs')
        return
    m.event('runs')
    m.check(model.success(), 'a run which succeeded counts as failed')
    sol, rates, fluxes = model.get_solution(), model.get_rates(), model.get_wall_fluxes()
    m.check(list(sol.columns) == ['t'] + names + ['e', 'Te', 'Tg', 'p'] and
            list(rates.columns) == ['t'] + ref.reaction_ids() and list(fluxes.columns) == ['t'] + names, 'columns')
    t = sol['t'].values
    m.check(t[0] == 0 and (np.diff(t) > 0).all() and t[-1] == p['t_end'], 'times of a run')
    m.check((rates['t'].values == t).all() and (fluxes['t'].values == t).all(), 'results are on different times')
    m.check((sol['e'] == 0).all() and sol['Te'].isna().all() and (sol['Tg'] == p['temp_gas']).all(), 'no electrons')
    first = sol.iloc[0]
    if n0 is not None:
        m.check(all(first[nm] == n0[nm] for nm in names), 'start from the given densities')
    else:
        fed = {nm: p['feeds'].get(nm, 0.) for nm in names}
        tot = sum(fed.values())
        for nm in names:
            exp = (n_tot * fed[nm] / tot if fed[nm] else n_tot * 1e-15) if tot else n_tot / len(names)
            m.check(abs(first[nm] - exp) <= 1e-9 * exp, 'start of a run', lambda: (nm, first[nm], exp))
    for k in sorted({0, len(t) - 1} | {rng.randrange(len(t)) for _ in range(8)}):
        n = [sol.iloc[k][nm] for nm in names]
        if min(n) <= 0:
            continue
        out, scale = neutral_reference(ref, p, np.array(n + [0.]))
        m.event('rows compared')
        m.check(odes.close(out['total_pressure'], sol.iloc[k]['p']), 'pressure of a row')
        m.check(odes.close(out['reaction_rates'], list(rates.iloc[k])[1:]), 'rates of a row')
        m.check(odes.close(out['wall_fluxes'], list(fluxes.iloc[k])[1:]), 'wall fluxes of a row')
    m.check(hist.same(model.get_wall_fluxes_final().to_dict(), fluxes.iloc[-1].drop('t').to_dict()), 'final wall fluxes')
    if rng.random() < .3 and len(names) < 6:
        from scipy.integrate import solve_ivp
        g = lambda tt, yy: np.array(neutral_reference(ref, p, np.append(yy, 0.))[0]['dn_dt'])
        y0 = sol.iloc[0][names].values.astype(float)
        # one step at a time, from the states of the run: errors do not add up
        picks = [k for k in sorted({rng.randrange(len(t) - 1) for _ in range(6)})]
        for k in picks:
            a, b = sol.iloc[k][names].values.astype(float), sol.iloc[k + 1][names].values.astype(float)
            if min(a) <= 0 or min(b) <= 0 or min(min(a), min(b)) < 1e-9 * n_tot:
                continue
            r = solve_ivp(g, (t[k], t[k + 1]), a, method='BDF', rtol=1e-7, atol=1e-3)
            if not r.success:
                continue
            m.event('runs integrated again')
            m.check((abs(r.y[:, -1] - b) <= .03 * abs(b) + 1e-6 * n_tot).all(), 'step of a run',
                    lambda: (k, a.tolist(), b.tolist(), r.y[:, -1].tolist()))
    if len(ref.en_r) >= 3 and sticky:
        m.signature(gen.describe(spec), sorted(ref.en_r), p)
        m.sample({'chemistry': gen.describe(spec), 'parameters': p, 'final': sol.iloc[-1].to_dict()})
