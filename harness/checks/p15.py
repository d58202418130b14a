"""Wall fluxes, returned particles and gas flow have the right sign and add up."""
import numpy as np

from harness import gen, hist, odes

RULE = ('random chemistry with random sticking and return coefficients, random history, random states: sign and '
        'support of wall fluxes, returned particles against the coefficients, flow balance, limits of the wall flux; '
        'non-trivial: a species returned as others and a feed')
QUICK, THOROUGH = 900, 6500
MIN_EVENTS = {'fluxes judged': 850, 'return balances': 850, 'flow balances': 180, 'negative ions': 100,
              'diffusion models compared': 100, 'zero sticking': 200}


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    spec = odes.gen_model_spec(rng, surface=rng.choice(['random', 'physical']))
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    h.random_state()
    ref = h.ref
    ids = ref.species_ids()
    if not [s for s in ids if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    eq = Equations(chem, odes.passed(rng, p))
    vol = np.pi * p['radius'] ** 2 * p['length']
    area = 2 * np.pi * p['radius'] * (p['radius'] + p['length'])
    returned_as_others = False
    for _ in range(3):
        y = odes.gen_state(rng, ref, p)
        n = y[:-1]
        if min(map(min, odes.reference(ref, p, y)[0]['sigma_sc'])) < 0:
            m.event('beyond the Coulomb logarithm')     # the plasma is too dense for the documented cross sections
            continue
        flux = np.array(eq.get_wall_fluxes(y))
        m.check(np.isfinite(flux).all(), 'wall flux is not a number', lambda: flux.tolist())
        v = np.array(eq.get_mean_speeds(y))
        for s, f, vv, nn in zip(ids, flux, v, n):
            st = ref.stick(s)
            m.event('fluxes judged')
            m.check(f <= 0, 'particles flow out of the wall', lambda: (ref.sp[s]['name'], f))
            if ref.sp[s]['q'] < 0:
                m.event('negative ions')
                m.check(f == 0, 'negative ions reach the wall', lambda: (ref.sp[s]['name'], f))
            elif st == 0:
                m.event('zero sticking')
                m.check(f == 0, 'flux of particles which do not stick', lambda: (ref.sp[s]['name'], f))
            else:
                m.check(f < 0, 'no flux of sticking particles', lambda: (ref.sp[s]['name'], st))
                # never more than the thermal flux of what sticks
                m.check(-f <= st * nn * vv / 4 * (1 + 1e-9), 'more than the thermal flux reaches the wall',
                        lambda: (ref.sp[s]['name'], f, st * nn * vv / 4))
        sinks = np.array(eq.get_diffusion_sinks(y))
        m.check(np.allclose(sinks, flux * area / vol, rtol=1e-9, atol=0), 'loss rate does not belong to the wall flux')
        src = np.array(eq.get_diffusion_sources(y))
        m.check((src >= 0).all(), 'negative number of returned particles', lambda: src.tolist())
        m.check(np.allclose(eq.get_diffusion_source_rates(y), sinks + src, rtol=1e-9,
                            atol=1e-9 * (np.abs(sinks).max() + src.max())), 'surface terms do not add up')
        for k, s in enumerate(ids):
            exp = sum(-sinks[j] * ref.ret(o).get(ref.sp[s]['name'], 0.) for j, o in enumerate(ids))
            m.event('return balances')
            m.check(abs(exp - src[k]) <= 1e-9 * abs(exp), 'returned particles', lambda: (ref.sp[s]['name'], exp, src[k]))
        tot = sum(-sinks[j] * sum(ref.ret(o).values()) for j, o in enumerate(ids))
        m.check(abs(tot - src.sum()) <= 1e-9 * tot, 'total number of returned particles', lambda: (tot, src.sum()))
        returned_as_others = returned_as_others or any(set(ref.ret(o)) - {ref.sp[o]['name']} for o in ids)
        # one species more sticky: its own loss grows, nobody else's changes
        # gas flow
        flow = np.array(eq.get_flow_source_rates(y))
        m.event('flow balances')
        pres = eq.get_total_pressure(y)
        neutral = np.array([ref.sp[s]['q'] == 0 for s in ids])
        fed = np.array([p['feeds'].get(ref.sp[s]['name'], 0.) for s in ids])
        m.check((flow[~neutral] == 0).all(), 'ions are pumped', lambda: flow.tolist())
        reg = n[neutral].sum() * 1e3 * (pres - p['pressure']) / p['pressure']
        size = np.abs(flow).sum() + abs(reg) + 2 * fed.sum() * odes.SCCM / vol + \
            n[neutral].sum() * 1e3 * (pres + p['pressure']) / p['pressure']
        m.check(abs(flow.sum() + reg) <= 1e-9 * size, 'inflow and outflow differ by more than the pressure regulation',
                lambda: (flow.sum(), reg))
        for f, nn, fd in zip(flow[neutral], n[neutral], fed[neutral]):
            if not fd and pres >= p['pressure']:
                m.check(f <= 0, 'species which is not fed appears with the flow', lambda: flow.tolist())
        at_p0 = y.copy()
        at_p0[:-1] *= p['pressure'] / pres
        at_p0[-1] *= p['pressure'] / pres
        if (at_p0[:-1] > 1).all():
            fl = np.array(eq.get_flow_source_rates(at_p0))
            m.check(abs(fl.sum()) <= 1e-6 * fed.sum() * odes.SCCM / vol + 1e-9 * at_p0[:-1][neutral].sum() * 1e3,
                    'gas accumulates at the wanted pressure', lambda: (fl.sum(), fed.sum() * odes.SCCM / vol))
        other = Equations(chem, p)
        other.diffusion_model = 0
        f0 = np.array(other.get_wall_fluxes(y))
        m.event('diffusion models compared')
        m.check(((f0 <= 0) & ((f0 == 0) == (flux == 0))).all(), 'diffusion models disagree about who reaches the wall',
                lambda: (f0.tolist(), flux.tolist()))
    if returned_as_others and p['feeds']:
        m.signature(gen.describe(spec), p, sorted(ref.en_sp))
        m.sample({'chemistry': gen.describe(spec), 'wall fluxes': flux.tolist(), 'returned': src.tolist()})
