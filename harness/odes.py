"""Random model parameters and states, and the documented global model equations written as plain scalar loops.

The formulae follow pygmo_fwork/pygmol/documentation/pygmol_doc_content.tex, not the code. Everything is computed from
the spec (plain data) and the reference state of the chemistry (harness.gen.Ref).
"""
import math

from scipy import constants as c

from harness import gen

SCCM = 4.485e17     # particles per second in one sccm, as used by the model (the document rounds to 4.478e17)
MTORR = .133322


def gen_model_spec(rng, reduced=False, **kw):
    """A chemistry which the model documents itself for: neutrals, a positive ion, elastic collisions with one partner,
    and electron energy losses only where an electron comes out."""
    kw.setdefault('surface', 'physical')
    spec = gen.gen_spec(rng, **kw)
    e = next(s['id'] for s in spec['species'] if s['name'] == 'e')
    sp = {s['id']: s for s in spec['species']}
    for r in spec['reactions']:
        if not r['electron']:
            continue
        heavy = {i for i in r['lhs'] if sp[i]['form']}
        if r['elastic'] and len(heavy) != 1:
            r['elastic'] = False
            r['attrs']['elastic'] = False
        if e not in r['rhs']:
            r['el_en_loss'] = 0.
            r['attrs'].pop('el_en_loss', None)
            r['units'].pop('el_en_loss', None)
    return spec


ALT = {'radius': ['radius', 'r', 'R'], 'length': ['length', 'z', 'Z'], 'pressure': ['pressure', 'p'],
       'power': ['power', 'P'], 't_power': ['t_power', 't_P', 'time_P', 'time_power'],
       'temp_gas': ['temp_gas', 'Tg', 'T_g', 'gas_temp'], 'feeds': ['feeds', 'feed_flows'],
       't_end': ['t_end', 'time_end', 'end_time']}


def gen_power(rng, t_end):
    """(power, t_power) with jumps, ramps, plateaus; segments are at least 0.2 t_end long."""
    k = rng.randrange(4)
    if isinstance(t_end, int):          # whole numbers throughout
        times, powers = [rng.choice([0, -t_end])], [rng.randint(0, 2000)]
        while times[-1] < 1.1 * t_end:
            times.append(times[-1] + t_end * rng.choice([1, 2]) if times[-1] or rng.random() < .5 else rng.randint(1, t_end))
            powers.append(rng.choice([powers[-1], rng.randint(0, 2000)]))
            if rng.random() < .5:
                times.append(times[-1])
                powers.append(rng.randint(0, 2000))
        if times[-1] == times[-2]:
            times.append(times[-1] + t_end)
            powers.append(powers[-1])
        return powers, times
    if k == 0:
        p = round(rng.uniform(0, 2000), 2)
        return [p, p], [rng.choice([0., 0, -1., -1e10]), rng.choice([1.1, 2., 1e3]) * t_end]
    times, powers = [rng.choice([0., -.5 * t_end])], [round(rng.uniform(0, 2000), 1)]
    if rng.random() < .15:              # a jump at the very start
        times.append(times[0])
        powers.append(round(rng.uniform(0, 2000), 1))
    while times[-1] < 1.1 * t_end:
        step = t_end * rng.choice([.25, .3, .5, 1.])
        t = times[-1] + step
        if times[-1] < 0 and rng.random() < .5:
            t = max(t, 0.)
        p = powers[-1] if rng.random() < .5 else round(rng.uniform(0, 2000), 1)
        times.append(t)
        powers.append(p)
        if rng.random() < .5:           # a jump
            times.append(t)
            powers.append(round(rng.uniform(0, 2000), 1))
    if times[-1] < 1.1 * t_end * (1 + 1e-9):
        times.append(times[-1] + t_end)
        powers.append(powers[-1])
    return powers, times


def gen_params(rng, spec, alt=True, const_power=False, ref=None):
    """Plain parameters (nominal keys)."""
    log = lambda a, b: float('{:.6g}'.format(math.exp(rng.uniform(math.log(a), math.log(b)))))
    t_end = log(1e-6, 10.) if rng.random() < .8 else rng.choice([1, 2, 3, 10])
    neutrals = [s['name'] for s in spec['species'] if s['q'] == 0 and s['form'] and
                (ref is None or s['id'] in ref.en_sp)]
    feeds = {n: rng.choice([log(.1, 1000.), rng.randint(1, 500)])
             for n in rng.sample(neutrals, rng.randint(0, min(3, len(neutrals))))}
    p = {'radius': log(.01, .5), 'length': log(.01, 1.), 'pressure': log(.01, 1e4), 'temp_gas': log(250, 3000) if rng.random() < .93 else log(3000, 12000),
         'feeds': feeds, 't_end': t_end}
    if const_power:
        pw = round(rng.uniform(0, 2000), 2)
        p['power'], p['t_power'] = [pw, pw], [0., 1.2 * t_end]
    else:
        p['power'], p['t_power'] = gen_power(rng, t_end)
    return p


def passed(rng, p):
    """The parameters as a user passes them: alternative names, tuples, lists, arrays, the class itself."""
    import numpy as np
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    d = {}
    for k, v in p.items():
        if k in ('power', 't_power'):
            v = rng.choice([list, tuple, np.array])(v)
        elif k == 'feeds':
            v = dict(v)
        d[rng.choice(ALT[k])] = v
    items = list(d.items())
    rng.shuffle(items)
    d = dict(items)
    return d if rng.random() < .5 else ModelParameters(d)


def gen_state(rng, ref, params, hostile=True):
    """Densities and electron energy density with a positive electron density."""
    import numpy as np
    ids = ref.species_ids()
    n_tot = params['pressure'] / (c.k * params['temp_gas'])
    n = {}
    far = hostile and rng.random() < .1         # what a solver may try on its way
    for i in ids:
        q = ref.sp[i]['q']
        if far:
            n[i] = 10 ** (rng.uniform(2, 26) if q == 0 else rng.uniform(2, 21.5))
        elif q == 0:
            n[i] = n_tot * 10 ** rng.uniform(-6, .5)
        else:
            n[i] = 10 ** rng.uniform(9, 14)
    pos = [i for i in ids if ref.sp[i]['q'] > 0]
    if hostile and rng.random() < .3:
        i = rng.choice(ids)
        if len(ids) > 3:
            n[i] = rng.choice([.3, 1e-6, .99, 1.01])
    neg = -sum(n[i] * ref.sp[i]['q'] for i in ids if ref.sp[i]['q'] < 0)
    posd = sum(n[i] * ref.sp[i]['q'] for i in pos)
    if posd < 1.05 * neg + 1e6:
        n[rng.choice(pos)] += 1.5 * neg + 1e8
    if hostile and neg > 1e9 and rng.random() < .06:     # hardly any electrons
        k = neg * (1 + 10 ** rng.uniform(-6, -2)) / sum(n[i] * ref.sp[i]['q'] for i in pos)
        for i in pos:
            n[i] *= k
    n_e = sum(n[i] * ref.sp[i]['q'] for i in ids)
    te = 10 ** rng.uniform(-1., 1.3) if rng.random() < .8 else 10 ** rng.uniform(-3, -1.)
    if far and rng.random() < .6:
        te = 10 ** rng.uniform(1.3, 4)
    rho = 1.5 * n_e * te
    if hostile and rng.random() < .05:
        rho = rng.choice([0., .2, 1.5])
    return np.array([n[i] for i in ids] + [rho])


def power_at(p, t):
    """Power at a time away from the jumps; None too close to one."""
    ts, ps = p['t_power'], p['power']
    for a, b in zip(ts, ts[1:]):
        if a == b and abs(t - a) < 3e-5 * p['t_end']:
            return None
    for k in range(len(ts) - 1):
        if ts[k] <= t <= ts[k + 1] and ts[k] != ts[k + 1]:
            return ps[k] + (ps[k + 1] - ps[k]) * (t - ts[k]) / (ts[k + 1] - ts[k])
    return None


def reference(ref, p, y, t=None, diffusion_model=1):
    """All the documented quantities in the state y (order of ref.species_ids()). Keys as the public getters."""
    ids = ref.species_ids()
    rids = ref.reaction_ids()
    ns = len(ids)
    n = dict(zip(ids, (float(v) for v in y[:-1])))
    rho = float(y[-1])
    sp, rs = ref.sp, ref.r
    e_id, m_id = ref.by_name.get('e'), ref.by_name.get('M')
    tg, p0, rad, length = p['temp_gas'], p['pressure'], p['radius'], p['length']
    mass = {i: sp[i]['mass'] * c.atomic_mass for i in ids}
    q = {i: sp[i]['q'] for i in ids}
    neu = [i for i in ids if q[i] == 0]
    pos = [i for i in ids if q[i] > 0]
    neg = [i for i in ids if q[i] < 0]
    volume = math.pi * rad ** 2 * length
    area = 2 * math.pi * rad * (rad + length)
    lam = ((math.pi / length) ** 2 + (2.405 / rad) ** 2) ** -.5
    out = {}
    n_tot = math.fsum(n.values())
    n_e = math.fsum(n[i] * q[i] for i in ids)
    pres = c.k * tg * n_tot
    tg_ev = tg * c.k / c.e
    te = max(tg_ev, 2 / 3 * rho / n_e)
    if pres > MTORR:
        ti = (.5 * c.e / c.k - tg) * MTORR / pres + tg
    else:
        ti = .5 * c.e / c.k
    debye = math.sqrt(c.epsilon_0 * te / (c.e * n_e))
    # volumetric
    k_r, rates = {}, {}
    for j in rids:
        a, b, cc = ref.arrh_a(j), rs[j]['b'], rs[j]['c']
        temp = te if rs[j]['electron'] else tg / 300.
        k_r[j] = a * temp ** b * math.exp(-cc / (te if rs[j]['electron'] else tg))
        rate = k_r[j]
        for i in rs[j]['lhs']:
            rate *= n_e if i == e_id else n_tot if i == m_id else n[i]
        rates[j] = rate
    vol = {i: math.fsum(ref.stoich(j, i, 'net') * rates[j] for j in rids) for i in ids}
    vol_abs = {i: math.fsum(abs(ref.stoich(j, i, 'net')) * rates[j] for j in rids) for i in ids}
    # flow
    inflow = {i: p['feeds'].get(sp[i]['name'], 0.) * SCCM / volume for i in ids}
    tot_in = math.fsum(inflow.values())
    n_neu = math.fsum(n[i] for i in neu)
    flow, flow_abs = {}, {}
    for i in ids:
        outflow = tot_in * n[i] / n_neu if i in neu else 0.
        reg = (pres - p0) / p0 * n[i] / 1e-3 if i in neu else 0.
        reg_abs = (pres + p0) / p0 * n[i] / 1e-3 if i in neu else 0.
        flow[i] = inflow[i] - outflow - reg
        flow_abs[i] = inflow[i] + outflow + reg_abs
    # transport
    v = {i: math.sqrt(8 * c.k * (tg if q[i] == 0 else ti) / (math.pi * mass[i])) for i in ids}
    sigma = {}
    for i in ids:
        for k in ids:
            if i == k:
                sigma[i, k] = 0.
            elif q[i] == 0 or q[k] == 0:
                sigma[i, k] = ((sp[i]['lj_sigma'] + sp[k]['lj_sigma']) * 1e-10) ** 2
            else:
                m_r = mass[i] * mass[k] / (mass[i] + mass[k])
                b0 = abs(q[i] * q[k]) * c.e ** 2 / (2 * math.pi * c.epsilon_0 * m_r * v[i] ** 2)
                sigma[i, k] = math.pi * b0 ** 2 * math.log(2 * debye / b0)
    mfp = {i: 1. / math.fsum(n[k] * sigma[i, k] for k in ids) for i in ids}
    d_free = {i: math.pi / 8 * mfp[i] * v[i] for i in ids}
    gamma = te * c.e / c.k / ti
    alpha = math.fsum(n[i] for i in neg) / n_e
    d_pos = math.fsum(d_free[i] for i in pos) / len(pos) * (1 + gamma * (1 + 2 * alpha)) / (1 + alpha * gamma)
    d = {i: d_free[i] if q[i] == 0 else d_pos if q[i] > 0 else 0. for i in ids}
    flux = {}
    for i in ids:
        s = ref.stick(i)
        if diffusion_model == 1:
            flux[i] = -d[i] * n[i] * s / (s * lam + 4 * d[i] / v[i]) if d[i] and s else 0.
        else:
            flux[i] = -d[i] * n[i] * s / lam ** 2 * volume / area
    sinks = {i: flux[i] * area / volume for i in ids}
    ret = {k: ref.ret(k) for k in ids}
    sources = {i: math.fsum(-sinks[k] * ret[k].get(sp[i]['name'], 0.) for k in ids) for i in ids}
    diff = {i: sinks[i] + sources[i] for i in ids}
    cor = {i: (1. - n[i]) / 1e-10 if n[i] < 1. else 0. for i in ids}
    dn = {i: vol[i] + flow[i] + diff[i] + cor[i] for i in ids}
    dn_abs = {i: vol_abs[i] + flow_abs[i] - sinks[i] + sources[i] + cor[i] for i in ids}
    # energy
    loss = {}
    for j in rids:
        r = rs[j]
        loss[j] = r['el_en_loss']
        if r['electron'] and r['elastic']:
            partner = next(i for i in r['lhs'] if i in mass)
            loss[j] = 3 * c.m_e / mass[partner] * (te - tg_ev)
    coll = math.fsum(loss[j] * rates[j] for j in rids if rs[j]['electron'])
    coll_abs = math.fsum(abs(loss[j]) * rates[j] for j in rids if rs[j]['electron'])
    net_e = {j: ref.stoich(j, e_id, 'net') for j in rids}
    gain = 1.5 * te * math.fsum(net_e[j] * rates[j] for j in rids)
    gain_abs = 1.5 * te * math.fsum(abs(net_e[j]) * rates[j] for j in rids)
    el_walls = -2 * te * math.fsum(q[i] * diff[i] for i in ids)
    v_sh = te * math.log(math.sqrt(math.fsum(mass[i] for i in pos) / len(pos) / (2 * math.pi * c.m_e)))
    ion_walls = -.5 * te * math.fsum(diff[i] for i in pos) - v_sh * math.fsum(q[i] * diff[i] for i in pos)
    walls_abs = (2.5 * te + v_sh) * 4 * math.fsum(abs(q[i]) * (sources[i] - sinks[i]) for i in ids)
    rho_cor = (1. - rho) / 1e-10 if rho < 1. else 0.
    lst = lambda dct: [dct[i] for i in ids]
    rl = lambda dct: [dct[j] for j in rids]
    out.update(
        total_density=n_tot, total_pressure=pres, electron_density=n_e, electron_temperature=te, ion_temperature=ti,
        debye_length=debye, reaction_rate_coefficients=rl(k_r), reaction_rates=rl(rates),
        volumetric_source_rates=lst(vol), flow_source_rates=lst(flow), mean_speeds=lst(v), mean_free_paths=lst(mfp),
        free_diffusivities=lst(d_free), ambipolar_diffusivity_pos=d_pos, diffusivities=lst(d), wall_fluxes=lst(flux),
        diffusion_sinks=lst(sinks), diffusion_sources=lst(sources), diffusion_source_rates=lst(diff),
        min_n_correction=lst(cor), dn_dt=lst(dn), drho_dt_el_inel=coll, drho_dt_gain_loss=gain,
        drho_dt_el_walls=el_walls, sheath_voltage=v_sh, drho_dt_ions_walls=ion_walls, min_rho_correction=rho_cor,
        sigma_sc=[[sigma[i, k] for k in ids] for i in ids],
        el_en_losses=[loss[j] if rs[j]['electron'] else None for j in rids])
    scale = {'volumetric_source_rates': lst(vol_abs), 'flow_source_rates': lst(flow_abs),
             'diffusion_source_rates': [sources[i] - sinks[i] for i in ids], 'dn_dt': lst(dn_abs),
             'drho_dt_el_inel': coll_abs, 'drho_dt_gain_loss': gain_abs, 'drho_dt_el_walls': walls_abs,
             'drho_dt_ions_walls': walls_abs,
             'electron_density': math.fsum(n[i] * abs(q[i]) for i in ids)}
    if t is not None:
        power = power_at(p, t)
        if power is None:
            return out, scale
        ext = power / volume / c.e
        out['power_ext'] = power
        out['drho_dt_ext'] = ext
        out['drho_dt'] = ext - coll - gain - el_walls - ion_walls + rho_cor
        # steps are smeared over 2e-5 t_end, so that ramps next to a step are a bit off
        slack = 1e4 if len(set(p['t_power'])) < len(p['t_power']) else 1.
        scale['power_ext'] = slack * max(p['power'])
        scale['drho_dt_ext'] = slack * max(p['power']) / volume / c.e
        scale['drho_dt'] = scale['drho_dt_ext'] + coll_abs + gain_abs + 2 * walls_abs + rho_cor
        out['dy_dt'] = lst(dn) + [out['drho_dt']]
        scale['dy_dt'] = lst(dn_abs) + [scale['drho_dt']]
    return out, scale


def close(a, b, scale=None, rel=1e-8, amp=None):
    """Element-wise agreement, relative to the size of the terms it was summed from."""
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        s = scale if isinstance(scale, list) else [scale] * len(a)
        return all(close(x, z, w, rel) for x, z, w in zip(a, b, s))
    if a is None:
        return True
    b = float(b)
    if b != b:
        return False
    return abs(a - b) <= rel * max(abs(a), abs(scale or 0.))
