"""The right-hand side of the global model is the documented one."""
from harness import gen, hist, odes

RULE = ('random chemistry with physical surface data, random model parameters, a random disabling/ad-hoc history, then '
        'random states (trace species, cold electrons, below-minimum densities) and times: the objective function and '
        'every partial quantity are compared with scalar loops written from the model documentation; non-trivial: '
        'chemistry with at least 4 reactions and a state with a sticking species')
QUICK, THOROUGH = 1000, 6000
MIN_EVENTS = {'states evaluated': 280, 'partial quantities compared': 8000, 'right-hand sides compared': 250,
              'states after reduction': 28, 'step powers': 20}


def quantities(m, eq, out, scale, y, t):
    for key, exp in out.items():
        getter = getattr(eq, 'get_' + key)
        if key in ('power_ext', 'drho_dt_ext'):
            got = getter(t)
        elif key in ('drho_dt', 'dy_dt'):
            got = getter(t, y)
        else:
            got = getter(y)
        got = got.tolist() if hasattr(got, 'tolist') else got
        m.event('partial quantities compared')
        if isinstance(exp, list) and exp and isinstance(exp[0], list):
            ok = len(exp) == len(got) and all(odes.close(a, b) for a, b in zip(exp, got))
        else:
            ok = odes.close(exp, got, scale.get(key))
        m.check(ok, 'quantity ' + key, lambda: 'state {} time {}: expected {} got {}'.format(y.tolist(), t, exp, got))


def case(m, rng, i):
    from pygmo_fwork.pygmol.equations import Equations
    spec = odes.gen_model_spec(rng)
    m.note(chemistry=gen.describe(spec))
    chem = gen.build(spec)
    h = hist.History(m, rng, spec, chem)
    if rng.random() < .5:
        h.random_state()
    ref = h.ref
    # elastic collisions with M only have no partner mass and are refused by the model
    if not [s for s in ref.species_ids() if ref.sp[s]['q'] == 0]:
        m.event('reduced to ions only')
        return
    p = odes.gen_params(rng, spec, ref=ref)
    m.note(params=p)
    eq = Equations(chem, odes.passed(rng, p))
    if rng.random() < .25:
        eq.diffusion_model = 0
    func, jac = eq.get_objective_functions()
    m.check(jac is None, 'jacobian returned although not asked for')
    if len(set(p['t_power'])) < len(p['t_power']):
        m.event('step powers')
    sticky = False
    for _ in range(4):
        y = odes.gen_state(rng, ref, p)
        t = rng.choice([0., p['t_end'], rng.uniform(0, p['t_end'])])
        out, scale = odes.reference(ref, p, y, t, eq.diffusion_model)
        m.event('states evaluated')
        if len(ref.species_ids()) < len(spec['species']) - 1 - ('M' in ref.by_name):
            m.event('states after reduction')
        if 'dy_dt' in out:
            got = func(t, y.copy())
            m.event('right-hand sides compared')
            m.check(len(got) == len(y), 'length of the right-hand side')
            m.check(odes.close(out['dy_dt'], got.tolist(), scale['dy_dt']), 'right-hand side of the equations',
                    lambda: 'state {} time {}: expected {} got {}'.format(y.tolist(), t, out['dy_dt'], got.tolist()))
        quantities(m, eq, out, scale, y, t)
        sticky = sticky or any(out['wall_fluxes'])
    if len(ref.en_r) >= 4 and sticky:
        m.signature(gen.describe(spec), sorted(ref.en_r), p)
        m.sample({'chemistry': gen.describe(spec), 'parameters': p, 'state': y.tolist(), 'dy_dt': out.get('dy_dt')})
