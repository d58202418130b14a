"""Disabling leaves exactly the greatest consistent sub-network, over histories."""
from harness import gen, hist

RULE = ('random conserving chemistry (2-8 heavy species, ions, excited states, random ids and order), then a random '
        'history of disable / protect / reset calls applied in lockstep to a fixpoint reference; non-trivial: at least '
        'one accepted disable which removed more than it was told to')
QUICK, THOROUGH = 700, 9000
MIN_EVENTS = {'disable accepted': 200, 'disable refused': 60, 'cascades': 60, 'protect': 30, 'reset': 30}
ASSUMPTIONS = ['sequential use of one chemistry object']


def compare(m, h, what):
    got, exp = hist.visible(h.chem), hist.expected_visible(h.ref)
    d = hist.diff(exp, got)
    m.check(not d, 'wrong network after ' + what, lambda: 'expected/observed: {}'.format(d))


def network_is_consistent(m, h):
    """The definition itself, on what is visible."""
    chem = h.chem
    species = set(chem.get_species(special=True).index)
    used = set()
    for r in chem.get_reactions():
        used |= set(r.get_rp_ids_set('all'))
    m.check(used == species, 'enabled network not closed',
            lambda: 'enabled species {} but enabled reactions use {}'.format(sorted(species), sorted(used)))


def case(m, rng, i):
    neutral = rng.random() < .1
    spec = gen.gen_spec(rng)
    m.note(chemistry=gen.describe(spec))
    h = hist.History(m, rng, spec, gen.build(spec))
    compare(m, h, 'construction')
    cascades = 0
    for _ in range(rng.randint(2, 9)):
        op = rng.choice(['disable'] * 6 + ['protect', 'reset', 'adhoc'])
        before = (set(h.ref.en_sp), set(h.ref.en_r))
        res = h.step(op)
        if res is not None:
            ok, got = res
            m.check(ok == got, 'disable accepted wrongly' if got else 'disable refused wrongly',
                    lambda: '{} expected {}, observed {}'.format(h.log[-1], ok, got))
            if ok and len(before[0] - h.ref.en_sp) + len(before[1] - h.ref.en_r) >= 2:
                cascades += 1
                m.event('cascades')
        compare(m, h, op)
        network_is_consistent(m, h)
    if cascades:
        m.signature(gen.describe(spec), h.log)
        m.sample({'chemistry': gen.describe(spec), 'history': h.log, 'left': hist.visible(h.chem)})
