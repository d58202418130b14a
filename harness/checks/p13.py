"""Evaluating the equations has no memory and no side effects."""
import inspect

import numpy as np

from harness import gen, hist, odes

RULE = ('random chemistry and parameters; a random interleaving of evaluations of the objective functions and of the '
        'partial quantities of two equation sets over several states, in which every result is compared bit by bit '
        'with that of a fresh equation set evaluated once; chemistry, parameters and passed states must stay as they '
        'were; non-trivial: at least 4 reactions, an ion and 12 interleaved evaluations')
QUICK, THOROUGH = 240, 3500
MIN_EVENTS = {'evaluations compared with fresh ones': 400, 'partial evaluations interleaved': 280,
              'kept results still intact': 400, 'chemistries unchanged': 40, 'chemistry changed after the equations': 9}

# arguments which spare the calculation of a quantity which the caller has already, and what they stand for
GIVEN = {'n': 'density_vector', 'n_tot': 'total_density', 'p': 'total_pressure', 'n_e': 'electron_density',
         'rho': 'electron_energy_density', 'temp_e': 'electron_temperature', 'temp_i': 'ion_temperature',
         'k_r': 'reaction_rate_coefficients', 'rates': 'reaction_rates', 'reaction_rates': 'reaction_rates',
         'v_m': 'mean_speeds', 'debye_length': 'debye_length', 'sigma_sc': 'sigma_sc', 'mfp': 'mean_free_paths',
         'diff_c_free': 'free_diffusivities', 'diff_a_pos': 'ambipolar_diffusivity_pos',
         'diff_a_neg': 'ambipolar_diffusivity_neg', 'diff_c': 'diffusivities', 'wall_fluxes': 'wall_fluxes',
         'diff_sinks': 'diffusion_sinks', 'diff_sources': 'diffusion_sources',
         'vol_source_rates': 'volumetric_source_rates', 'flow_source_rates': 'flow_source_rates',
         'diff_source_rates': 'diffusion_source_rates', 'min_n_correction': 'min_n_correction',
         'power_ext': 'power_ext', 'el_en_losses': 'el_en_losses', 'sh_pot': 'sheath_voltage', 'ext': 'drho_dt_ext',
         'el_inel': 'drho_dt_el_inel', 'gain_loss': 'drho_dt_gain_loss', 'el_walls': 'drho_dt_el_walls',
         'ions_walls': 'drho_dt_ions_walls', 'min_rho_correction': 'min_rho_correction', 'dn_dt': 'dn_dt',
         'drho_dt': 'drho_dt'}


def call(eq, name, t, y, **kw):
    f = getattr(eq, 'get_' + name)
    a = {'t': t, 'y': y}
    return f(*[a[k] for k in inspect.signature(f).parameters if k in a], **kw)


def given(m, rng, make, t, y):
    """Quantities handed in instead of calculated: the same results, and they stay as they were."""
    names = [k[4:] for k, f in inspect.getmembers(make(), inspect.ismethod)
             if k.startswith('get_') and set(inspect.signature(f).parameters) & set(GIVEN)]
    eq = make()
    for name in rng.sample(names, min(8, len(names))):
        args = [k for k in inspect.signature(getattr(eq, 'get_' + name)).parameters if k in GIVEN]
        args = rng.sample(args, rng.randint(1, len(args)))
        kw = {k: call(make(), GIVEN[k], t, y.copy()) for k in args}
        keep = {k: np.array(v, copy=True) for k, v in kw.items()}
        exp = np.array(call(make(), name, t, y.copy()), copy=True)
        got = call(eq, name, t, y.copy(), **kw)
        m.event('evaluations with quantities handed in')
        m.check(np.allclose(got, exp, rtol=1e-9, atol=0, equal_nan=True) or
                np.abs(np.subtract(got, exp)).max() <= 1e-9 * np.abs(exp).max(),
                'a quantity handed in gives another result', lambda: (name, args, exp.tolist(), np.array(got).tolist()))
        for k in kw:
            m.check(np.array_equal(kw[k], keep[k], equal_nan=True), 'a quantity handed in was overwritten', (name, k))


PARTIAL = ['reaction_rate_coefficients', 'reaction_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths', 'wall_fluxes',
           'el_en_losses', 'diffusion_source_rates', 'flow_source_rates', 'dn_dt', 'total_pressure',
           'electron_temperature', 'diffusivities', 'drho_dt_el_inel', 'volumetric_source_rates']


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .4:
        h.random_state()
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    sets = []
    before = hist.values(chem)
    for _ in range(2):
        p = odes.gen_params(rng, spec, ref=ref)
        passed = odes.passed(rng, p)
        states = []
        for _ in range(3):
            y = odes.gen_state(rng, ref, p)
            y = y if rng.random() < .5 else y.astype(float)
            states.append((rng.uniform(0, p['t_end']), y))
        fresh = []
        for t, y in states:
            fresh.append(Equations(chem, passed).get_objective_functions()[0](t, y.copy()))
        eq = Equations(chem, passed)
        f = eq.get_objective_functions()[0]
        g = eq.get_objective_functions()[0]
        sets.append((p, passed, states, fresh, eq, f, g))
    m.check(not hist.diff(before, hist.values(chem)), 'evaluation changed the chemistry',
            lambda: hist.diff(before, hist.values(chem)))
    m.event('chemistries unchanged')
    kept = []
    changed = rng.random() < .3
    for k in range(rng.randint(12, 24)):
        p, passed, states, fresh, eq, f, g = sets[rng.randrange(2)]
        s = rng.randrange(3)
        t, y = states[s]
        if changed and k == 6:
            # equations are a snapshot: what happens to the chemistry afterwards does not reach them
            h.random_state(3)
            m.event('chemistry changed after the equations')
        if rng.random() < .4:
            nm = rng.choice(PARTIAL)
            yy = y.copy()
            res = getattr(eq, 'get_' + nm)(yy)
            m.event('partial evaluations interleaved')
            m.check(np.array_equal(yy, y), 'evaluation changed the state passed in', nm)
            # recomputed later it has to be the same
            val = np.array(res, copy=True)
            if np.ndim(res) and rng.random() < .3:      # what was returned is the caller's
                res[...] = -7.
                m.event('returned quantities overwritten')
            else:
                kept.append((res, val))
            eq2 = sets[0][4] if eq is sets[1][4] else sets[1][4]
            getattr(eq2, 'get_' + rng.choice(PARTIAL))(rng.choice([st for st in sets[0][2] + sets[1][2]])[1].copy())
            f(*[(tt, q.copy()) for tt, q in [states[rng.randrange(3)]]][0])
            again = np.array(getattr(eq, 'get_' + nm)(y.copy()), copy=True)
            m.check(np.array_equal(val, again, equal_nan=True), 'partial quantity depends on what was evaluated before',
                    lambda: (nm, val.tolist(), again.tolist()))
            continue
        yy = y.copy()
        if rng.random() < .3:
            yy.flags.writeable = False
        res = (f if rng.random() < .5 else g)(t, yy)
        m.check(np.array_equal(yy, y), 'evaluation changed the state passed in')
        m.event('evaluations compared with fresh ones')
        m.check(np.array_equal(res, fresh[s], equal_nan=True), 'result depends on what was evaluated before',
                lambda: 'after {} evaluations: {} instead of {}'.format(k, res.tolist(), fresh[s].tolist()))
        kept.append((res, fresh[s]))
    for res, exp in kept:
        m.event('kept results still intact')
        m.check(np.array_equal(res, exp, equal_nan=True), 'an earlier result changed afterwards')
    for p, passed, states, *_ in sets:
        t, y = rng.choice(states)
        if not changed:
            given(m, rng, lambda: Equations(chem, passed), t, y)
        for key in p:
            got = passed[key] if not isinstance(passed, dict) else \
                next(v for kk, v in passed.items() if kk in odes.ALT[key])
            got = list(got) if key in ('power', 't_power') else got
            m.check(got == p[key], 'evaluation changed the parameters', lambda: (key, got, p[key]))
    if len(ref.en_r) >= 4:
        m.signature(gen.describe(spec), sorted(ref.en_r), [x[0] for x in sets])
        m.sample({'chemistry': gen.describe(spec), 'evaluations': len(kept)})
