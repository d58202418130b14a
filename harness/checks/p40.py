"""Diagnosing partial results of the equations along a solution."""
import numpy as np
from scipy import constants as c

from harness import fakes, gen, hist, odes
from harness.checks import p35

RULE = ('random plasma or neutral chemistry in a random state, a model run with a quick stand-in solver or fed with a '
        'primary solution; random partial results diagnosed, with and without totals, again after changes of the '
        'chemistry and of what was returned; each value is compared with the documented one in the state of its row, '
        'each label with the names and ids in the spec; non-trivial: at least 4 quantities diagnosed')
QUICK, THOROUGH = 600, 6000
CASE_LIMIT = 60
MIN_EVENTS = {'runs diagnosed': 48, 'fed solutions diagnosed': 30, 'neutral models': 10, 'quantities diagnosed': 376,
              'totals': 162, 'ambiguous by number': 14, 'rows compared': 1500, 'values compared': 5376,
              'diagnosed after a change of the chemistry': 4, 'refused without a solution': 80}
SPECIES = ['volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths', 'free_diffusivities',
           'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates',
           'min_n_correction', 'dn_dt', 'density_vector']
REACTIONS = ['reaction_rate_coefficients', 'reaction_rates', 'el_en_losses']
SCALARS = ['total_density', 'total_pressure', 'electron_density', 'electron_temperature', 'ion_temperature',
           'debye_length', 'ambipolar_diffusivity_pos', 'drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls',
           'sheath_voltage', 'drho_dt_ions_walls', 'min_rho_correction', 'electron_energy_density']
N_SPECIES = ['volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths', 'free_diffusivities',
             'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates',
             'min_n_correction', 'dn_dt', 'density_vector']
N_REACTIONS = ['reaction_rate_coefficients', 'reaction_rates']
N_SCALARS = ['total_density', 'total_pressure', 'electron_density', 'electron_energy_density']


def diagnose(m, rng, model, ref, p, states, t, neutral, feed):
    ids, rids = ref.species_ids(), ref.reaction_ids()
    names = [ref.sp[i]['name'] for i in ids]
    q = np.array([ref.sp[i]['q'] for i in ids])
    pool = (N_SPECIES, N_REACTIONS, N_SCALARS) if neutral else (SPECIES, REACTIONS, SCALARS)
    exact = []
    for y in states:
        n = y[:-1]
        mag = float(np.abs(n * q).sum())
        if (n <= 0).any() or not neutral and not float((n * q).sum()) > 1e-4 * mag:
            exact.append(None)
        elif neutral:
            exact.append(p35.neutral_reference(ref, p, y))
        else:
            exact.append(odes.reference(ref, p, y))
    for _ in range(rng.randint(4, 8)):
        quantity = rng.choice(rng.choice(pool))
        totals = rng.random() < .4
        kw = {'totals': True} if totals else {} if rng.random() < .5 else {'totals': False}
        if feed:
            kw['sol_primary'] = np.array(states)
        m.note(quantity=quantity, totals=totals)
        df = model.diagnose(quantity, **kw)
        m.event('quantities diagnosed')
        labels = names if quantity in SPECIES else rids if quantity in REACTIONS else ['value']
        m.check(list(df.columns) == ['t'] + labels + (['total'] if totals else []), 'columns of a diagnosed quantity',
                lambda: (list(df.columns), labels))
        m.check(len(df) == len(states), 'rows of a diagnosed quantity', (len(df), len(states)))
        if t is not None:
            m.check(np.array_equal(np.asarray(df['t'], dtype=float), t), 'times of a diagnosed quantity', lambda: df['t'])
        vals = df[labels].values
        if totals:
            m.event('totals')
            for k in range(len(vals)):
                s = float(np.sum(vals[k]))
                m.check(abs(s - df['total'].iloc[k]) <= 1e-12 * float(np.abs(vals[k]).sum()) or not np.isfinite(s),
                        'total of a diagnosed quantity', lambda: (k, s, df['total'].iloc[k]))
        for k, e in enumerate(exact):
            if quantity in ('density_vector', 'electron_energy_density'):
                y = states[k]
                m.check(vals[k].tolist() == (y[:-1].tolist() if quantity[0] == 'd' else [y[-1]]), 'component of a solution',
                        lambda: (quantity, k, vals[k], y))
                m.event('values compared', len(labels))
                continue
            if e is None:
                continue
            m.event('rows compared')
            out, scale = e
            exp = out[quantity]
            exp = exp if isinstance(exp, list) else [exp]
            sc = scale.get(quantity)
            sc = sc if isinstance(sc, list) or sc is None else [sc]
            for j, (got, want) in enumerate(zip(vals[k], exp)):
                if want is None:
                    continue
                m.event('values compared')
                # quasi-neutrality costs digits in whatever depends on the electron density
                amp = 1.
                if not neutral:
                    amp = max(1., float(np.abs(states[k][:-1] * q).sum() / (states[k][:-1] * q).sum()))
                size = max(abs(want), sc[j] if sc is not None else 0.)
                m.check(abs(got - want) <= 1e-7 * amp * size + 1e-300, 'value of ' + quantity,
                        lambda: (k, labels[j], float(got), want))
        # what was returned belongs to the caller
        df.iloc[:, 1:] = -1.
    if len(ids) == len(rids) or len(ids) == 1 or len(rids) == 1 or len(rids) == len(ids) + 1:
        m.event('ambiguous by number')


def case(m, rng, i):
    from pygmo_fwork.pygmol.model import Model
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry, NeutralModel
    neutral = rng.random() < .25
    if neutral:
        spec = p35.gen_neutral(rng)[0]
        if spec is None:
            return
        chem, ref0 = gen.build(spec, NeutralChemistry), p35.NeutralRef(spec)
    else:
        small = rng.random() < .4
        spec = odes.gen_model_spec(rng, n_heavy=rng.choice([2, 2, 3, 3, 4]) if small else None,
                                   n_reactions=rng.randint(1, 4) if small else None)
        chem, ref0 = gen.build(spec), None
    m.note(chemistry=gen.describe(spec), neutral=neutral)
    h = hist.History(m, rng, spec, chem, ref0) if ref0 is not None else hist.History(m, rng, spec, chem)
    if not neutral and rng.random() < .4:
        h.random_state()
    ref = h.ref
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    model = (NeutralModel if neutral else Model)(chem, odes.passed(rng, p))
    m.raises((TypeError, AttributeError, ValueError), 'diagnosed without a solution', model.diagnose, 'total_pressure')
    m.event('refused without a solution')

    def state():
        n_ids = len(ref.species_ids())
        if neutral:
            return np.array([10 ** rng.uniform(10, 22) for _ in range(n_ids)] + [0.])
        return odes.gen_state(rng, ref, p, hostile=False)
    if rng.random() < .4:
        states = [state() for _ in range(rng.randint(1, 6))]
        m.event('fed solutions diagnosed')
        diagnose(m, rng, model, ref, p, states, None, neutral, True)
    else:
        y = state()
        n0 = dict(zip([ref.sp[s]['name'] for s in ref.species_ids()], y[:-1].tolist()))
        with fakes.solver():
            model.run(init_n=n0, init_el_temp=10 ** rng.uniform(-.5, 1))
        states = [np.array(s) for s in model.sol_primary]
        m.event('runs diagnosed')
        diagnose(m, rng, model, ref, p, states, np.array(model.t), neutral, False)
        if rng.random() < .5:
            # the solution is of the chemistry it was run with
            old = ref.clone()
            h.ref = ref
            if neutral:
                heavy = ref.species_ids()
                chem.set_adhoc_species_attributes('stick_coef', rng.choice(heavy), 0.)
            else:
                h.random_state(3)
            m.event('diagnosed after a change of the chemistry')
            diagnose(m, rng, model, old, p, states, np.array(model.t), neutral, False)
    if neutral:
        m.event('neutral models')
    m.signature(gen.describe(spec), sorted(p.items(), key=str), len(states))
