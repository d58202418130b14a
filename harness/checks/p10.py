"""Classification and sorting of reactions and species."""
from harness import gen

RULE = ('a random chemistry (charges up to 2, excited states, M, up to four products) is classified in random member '
        'order and after random sequences of sorting, aligning and chemistry swapping; separately every documented '
        'category is exercised with textbook reactions over random species; non-trivial: at least 3 types seen or a '
        'textbook reaction with shuffled members')
QUICK, THOROUGH = 600, 7000
MIN_EVENTS = {'reactions classified': 783, 'textbook reactions': 560, 'textbook categories seen': 14,
              'species sorted': 300, 'strings aligned': 1500, 'histories': 60}

EIC, NN = 'ELECTRON IMPACT COLLISIONS', 'NEUTRAL - NEUTRAL COLLISIONS'
PN, MN = 'POSITIVE ION - NEUTRAL COLLISIONS', 'NEGATIVE ION - NEUTRAL COLLISIONS'
II, TB, RD, UN = 'ION - ION COLLISIONS', 'THREE BODY COLLISIONS', 'RADIATIVE DECAY', 'UNCLASSIFIED COLLISIONS'

# letters: A, B atoms; AB their molecule; C an inert third atom; suffixes + - and ' ( '' ) for a (higher) excited state
TEXTBOOK = [
    ("e A > e A", EIC, 'elastic and momentum transfer'),
    ("e A+ > e A+", EIC, 'elastic and momentum transfer'),
    ("e A' > e A'", EIC, 'elastic and momentum transfer'),
    ("e A > e A'", EIC, 'excitation'),
    ("e AB > e AB'", EIC, 'excitation'),
    ("e A+ > e A+'", EIC, 'excitation'),
    ("e A' > e A'' | loss 1.5", EIC, 'excitation'),
    ("e A' > e A'' | loss 0.02", EIC, 'excitation'),
    ("e A' > e A'' | loss 0.4", EIC, 'excitation'),
    ("e A'' > e A' | loss -1.5", EIC, 'deexcitation'),
    ("e A'' > e A' | loss -0.02", EIC, 'deexcitation'),
    ("e A' > e A", EIC, 'deexcitation'),
    ("e A' > e A'' | loss 0", EIC, 'deexcitation'),
    ("e A'' > e A'", EIC, 'deexcitation'),
    ("e AB > e A B'", EIC, 'dissociative excitation'),
    ("e AB' > e A B'", EIC, 'dissociative excitation'),
    ("e A > e e A+", EIC, 'ionization'),
    ("e A' > e e A+", EIC, 'ionization'),
    ("e AB > e e AB+", EIC, 'ionization'),
    ("e AB > e e A B+", EIC, 'dissociative ionization'),
    ("e AB' > e e A B+", EIC, 'dissociative ionization'),
    ("e A > A-", EIC, 'attachment'),
    ("e AB > AB-", EIC, 'attachment'),
    ("e AB > A- B", EIC, 'dissociative attachment'),
    ("e AB' > A- B", EIC, 'dissociative attachment'),
    ("e A M > A- M", EIC, 'three body attachment'),
    ("e A C > A- C", EIC, 'three body attachment'),
    ("e A- > e e A", EIC, 'detachment'),
    ("e AB- > e e AB", EIC, 'detachment'),
    ("e A+ > A", EIC, 'recombination'),
    ("e A+ > A'", EIC, 'recombination'),
    ("e AB+ > A B", EIC, 'dissociative recombination'),
    ("e AB+ > A B'", EIC, 'dissociative recombination'),
    ("e A+ M > A M", EIC, 'three body recombination'),
    ("e A+ C > A C", EIC, 'three body recombination'),
    ("e e A+ > e A", EIC, 'three body recombination'),
    ("e A++ M > A+ M", EIC, 'three body recombination'),
    ("e e A++ > e A+", EIC, 'three body recombination'),
    ("e A+ M > e e A++ M", EIC, 'unclassified electron impact collisions'),
    ("e A+ C > e e A++ C", EIC, 'unclassified electron impact collisions'),
    ("e e A+ > e e e A++", EIC, 'unclassified electron impact collisions'),
    ("e A- M > e e A M", EIC, 'unclassified electron impact collisions'),
    ("e A M > e e A+ M", EIC, 'unclassified electron impact collisions'),
    ("e A+ M > e A+ M", EIC, 'unclassified electron impact collisions'),
    ("e A- M > A-- M", EIC, 'three body attachment'),
    ("e AB > e A B", EIC, 'dissociation'),
    ("e AB' > e A B", EIC, 'dissociation'),
    ("e A > e A | inelastic", EIC, 'other electron energy loss channels'),
    ("e e > e e", EIC, 'unclassified electron impact collisions'),
    ("e > e", EIC, 'unclassified electron impact collisions'),
    ("e e e > e e e", EIC, 'unclassified electron impact collisions'),
    ("e e > e e | inelastic", EIC, 'unclassified electron impact collisions'),
    ("A B > A B", NN, 'elastic scattering'),
    ("A M > A M", NN, 'elastic scattering'),
    ("A A > A A", NN, 'elastic scattering'),
    ("A B > AB", NN, 'association'),
    ("A' B > AB", NN, 'association'),
    ("AB C > A B C", NN, 'dissociation'),
    ("AB M > A B M", NN, 'dissociation'),
    ("A B > A B'", NN, 'excitation'),
    ("AB M > AB' M", NN, 'excitation'),
    ("AB C > A B' C", NN, 'dissociative excitation'),
    ("A' B > A B", NN, 'collisional quenching'),
    ("A' M > A M", NN, 'collisional quenching'),
    ("AB' C > A B C", NN, 'dissociative quenching'),
    ("A' B > A B'", NN, 'excitation transfer'),
    ("A B > A B+ e", NN, 'ionization'),
    ("AB C > A B+ C e", NN, 'dissociative ionization'),
    ("A B > AB+ e", NN, 'associative ionization'),
    ("A' B > AB+ e", NN, 'associative ionization'),
    ("A' B > A B+ e", NN, 'penning ionization'),
    ("A B2 > AB B", NN, 'interchange'),
    ("AB AB > A A B2", NN, 'unclassified neutral - neutral collisions'),
    ("A+ A > A A+", PN, 'resonant charge transfer'),
    ("AB+ AB > AB AB+", PN, 'resonant charge transfer'),
    ("A+ B > A B+", PN, 'charge transfer'),
    ("AB+ C > AB C+", PN, 'charge transfer'),
    ("C+ AB > C AB+", PN, 'charge transfer'),
    ("AB+ C > A B C+", PN, 'dissociative charge transfer'),
    ("A+ AB > AB+ A | same", PN, 'charge transfer'),
    ("A- A > A A-", MN, 'resonant charge transfer'),
    ("A- B > A B-", MN, 'charge transfer'),
    ("AB- A > AB A-", MN, 'charge transfer'),
    ("A- B > A B e", MN, 'detachment'),
    ("A- M > A M e", MN, 'detachment'),
    ("A- B > AB e", MN, 'associative detachment'),
    ("A+ B- > A B", II, 'neutralization'),
    ("A+ B- > A B'", II, 'neutralization'),
    ("AB+ C- > A B C", II, 'dissociative neutralization'),
    ("A+ B- > AB", II, 'unclassified ion - ion collisions'),
    ("A B M > AB M", TB, 'None'),
    ("A A B > A AB", TB, 'None'),
    ("A+ B M > AB+ M", TB, 'None'),
    ("A+ B- M > AB M", TB, 'None'),
    ("A' > A", RD, 'None'),
    ("AB'' > AB'", RD, 'None'),
    ("A+' > A+", RD, 'None'),
    ("AB > A B", UN, 'None'),
    ("A- > A e", UN, 'None'),
]
PAIRS = [('N', 'O', 'NO', 'O2'), ('H', 'Cl', 'HCl', 'Cl2'), ('H', 'F', 'HF', 'F2'), ('C', 'O', 'CO', 'O2'),
         ('O', 'H', 'OH', 'H2'), ('N', 'H', 'NH', 'H2'), ('C', 'F', 'CF', 'F2')]
THIRD = ['Ar', 'He', 'Ne', 'Si', 'S']
STATES = [('*', '**'), ('(v=1)', '(v=2)'), ('(1D)', '(1S)'), ('(a)', '(b)'), ('(v=*)', '(v=7)')]
RANK = {'H': 1, 'He': 2, 'C': 6, 'N': 7, 'O': 8, 'F': 9, 'Ne': 10, 'Si': 14, 'S': 16, 'Cl': 17, 'Ar': 18}


def textbook_objects(rng, template):
    """Real species and a real reaction of the template over random chemical species."""
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    eq, _, opt = template.partition(' | ')
    a, b, ab, b2 = rng.choice(PAIRS)
    forms = {'A': a, 'B': b, 'AB': ab, 'B2': b2, 'C': rng.choice(THIRD)}
    low, high = rng.choice(STATES)
    species, n = {}, [rng.randint(1, 40)]

    def make(token):
        if token in species:
            return species[token]
        n[0] += 1
        if token == 'e':
            at = {'name': 'e', 'charge': -1, 'mass': 5.4858e-4}
        elif token == 'M':
            at = {'name': 'M'}
        else:
            core = token.rstrip("'")
            q = core.count('+') - core.count('-')
            form = forms[core.rstrip('+-')]
            stateless = form + gen.charge_suffix(rng, q)
            st = {0: None, 1: low, 2: high}[len(token) - len(core)]
            at = {'name': stateless + (st or ''), 'charge': q,
                  'mass': sum(gen.MASSES[e] * c for e, c in gen.FORMULAE[form].items()) - 5.4858e-4 * q}
            if st:
                at['state'], at['stateless'] = st.strip('()'), stateless
        species[token] = RP(n[0], at)
        return species[token]
    lhs, rhs = [[make(t) for t in side.split()] for side in eq.split(' > ')]
    rng.shuffle(lhs)
    rng.shuffle(rhs)
    at = {'arrh_a': 1.}
    if opt.startswith('loss'):
        at['el_en_loss'] = float(opt.split()[1])
    if opt == 'inelastic':
        at['elastic'] = rng.choice([False, 'false', 'False'])
    un = {'arrh_a': {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[len(lhs)]}
    return list(species.values()), Reaction(rng.randint(1, 999), lhs, rhs, at, un)


def where(classified):
    out = {}
    for t in classified:
        for c in classified[t]:
            for r in classified[t][c]:
                out.setdefault(r.id, []).append((t, c))
    return out


def directed(m):
    import random
    from plaschem.classification import ReactionClassifier
    rng = random.Random(0)
    seen = set()
    for eq, t, c in TEXTBOOK:
        for _ in range(20):
            sp, r = textbook_objects(rng, eq)
            got = where(ReactionClassifier(sp, [r]).get_classified_reactions())[r.id]
            m.event('textbook reactions')
            m.check(got == [(t, c)], 'textbook reaction classified wrongly: ' + eq,
                    lambda: '{} classified as {} instead of {}'.format(r, got, (t, c)))
            seen.add((t, c))
    m.event('textbook categories seen', len(seen))
    for t, cats in ReactionClassifier.classification_scheme:
        m.check(len(set(cats)) == len(cats), 'scheme repeats a category')


def expected_type(reactants, products):
    qs = [(s['q'] or 0) for s in reactants]
    if any(s['name'] == 'e' for s in reactants):
        return EIC
    if len(qs) == 3:
        return TB
    if len(qs) == 1:
        return RD if len(products) == 1 else UN
    if len(qs) == 2:
        if qs == [0, 0]:
            return NN
        if 0 in qs:
            return PN if max(qs) > 0 else MN
        if qs[0] * qs[1] > 0:
            return UN
        if all((s['q'] or 0) == 0 for s in products):
            return II
    return None


def sp_key(s, order):
    if s['name'] == 'M':
        return (9,)
    els = list(order)
    key = [len(els)]
    for el in els:
        key += [RANK[el], s['atoms'][el]]
    return tuple([len(els)] + [x for el in els for x in (RANK[el], s['atoms'][el])] +
                 [0] * (6 - 2 * len(els)) + [int(s['excited']), max(0, -(s['q'] or 0)), max(0, s['q'] or 0)])


def check_aligned(m, clf, ref_names):
    classified = clf.get_classified_reactions()
    for t in classified:
        for c in classified[t]:
            layouts = []
            for r in classified[t][c]:
                s = clf.get_aligned_reaction_string(r)
                m.event('strings aligned')
                lhs, sep, rhs = s.partition(' > ')
                m.check(sep == ' > ', 'aligned string without an arrow', s)
                tok = [[x for x in side.split() if x != '+'] for side in (lhs, rhs)]
                exp = [sorted(p.get_name() for p in r.get_reactants()), sorted(p.get_name() for p in r.get_products())]
                m.check([sorted(x) for x in tok] == exp, 'aligned string is of another reaction', lambda: (s, str(r)))
                layouts.append((len(lhs), tok, lhs, rhs, s))
            m.check(len({x[0] for x in layouts}) == 1, 'arrows of a category not aligned',
                    lambda: '\n'.join(x[4] for x in layouts))
            for side in (0, 1):
                starts = {}
                for x in layouts:
                    pos = 0
                    for k, name in enumerate(x[1][side]):
                        pos = x[2 + side].index(name, pos)
                        starts.setdefault(k, set()).add(pos)
                        pos += len(name)
                m.check(all(len(v) == 1 for v in starts.values()), 'columns of a category not aligned',
                        lambda: '\n'.join(x[4] for x in layouts))


def case(m, rng, i):
    from plaschem.classification import ReactionClassifier
    from plaschem.reactions import Reaction
    spec = gen.gen_spec(rng)
    if any(len(s['atoms']) > 3 for s in spec['species']):
        return
    m.note(chemistry=gen.describe(spec))
    sp = {s['id']: s for s in spec['species']}
    el = [s['id'] for s in spec['species'] if s['name'] == 'e']
    if el and rng.random() < .3:  # electrons only
        k = rng.choice((1, 2, 2, 3))
        spec['reactions'].append({'id': max(r['id'] for r in spec['reactions']) + 1, 'lhs': k * el, 'rhs': k * el,
                                  'attrs': {'arrh_a': 1., 'elastic': False},
                                  'units': {'arrh_a': {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[k]}})
    rs = {r['id']: r for r in spec['reactions']}
    species, reactions = gen.build_objects(spec)
    reactions = [r for r in reactions if r.id in rs]
    rng.shuffle(species)
    rng.shuffle(reactions)
    scheme = {t: set(c) for t, c in ReactionClassifier.classification_scheme}
    clf = ReactionClassifier(species, reactions)
    got = clf.get_classified_reactions()
    at = where(got)
    types = set()
    m.check(sorted(at) == sorted(rs), 'reactions lost or invented by the classification')
    m.check(all(len(v) == 1 for v in at.values()), 'reaction in several categories', lambda: at)
    m.check(sum(len(got[t][c]) for t in got for c in got[t]) == len(rs), 'reaction repeated in a category')
    m.check(all(got[t][c] for t in got for c in got[t]) and all(got[t] for t in got), 'empty type or category kept')
    for r in reactions:
        t, c = at[r.id][0]
        m.event('reactions classified')
        m.check(t in scheme and c in scheme[t], 'category out of the scheme', (t, c))
        lhs, rhs = [sp[j] for j in rs[r.id]['lhs']], [sp[j] for j in rs[r.id]['rhs']]
        exp = expected_type(lhs, rhs)
        if exp is not None:
            m.event('types decided')
            m.check(t == exp, 'type of collision', lambda: '{}: {} instead of {}'.format(r, t, exp))
        types.add(t)
        # the order of members does not matter, neither does the id of the reaction nor what else is there
        l2, r2 = r.get_reactants(), r.get_products()
        l2, r2 = list(l2), list(r2)
        rng.shuffle(l2)
        rng.shuffle(r2)
        q = Reaction(rng.randint(100, 999), l2, r2, {k: v for k, v in rs[r.id]['attrs'].items()},
                     dict(rs[r.id]['units']))
        t2 = where(ReactionClassifier(species, [q]).get_classified_reactions())[q.id][0]
        m.check(t2 == (t, c), 'category depends on the order of the members',
                lambda: '{} is {}, {} is {}'.format(r, (t, c), q, t2))
    order = [t for t, _ in ReactionClassifier.classification_scheme]
    m.check([order.index(t) for t in got] == sorted(order.index(t) for t in got), 'types not in the order of the scheme')
    for t, cats in ReactionClassifier.classification_scheme:
        if t in got:
            m.check(list(got[t]) == [c for c in cats if c in got[t]], 'categories not in the order of the scheme')
        for c in got.get(t, ()):
            m.check([r.id for r in got[t][c]] == [r.id for r in reactions if at[r.id][0] == (t, c)],
                    'reactions of a category not in the order of the chemistry')
    by_obj = {s.id: s for s in species}
    if rng.random() < .5:
        check_aligned(m, clf, by_obj)
    # sorting
    clf.sort_species()
    m.event('species sorted', len(species))
    m.check(sorted(s.id for s in clf.species) == sorted(sp), 'sorting lost or repeated species')
    keys = [sp_key(sp[s.id], list(s.get_atoms())) for s in clf.species]
    m.check(keys == sorted(keys), 'species out of order', lambda: [s.get_name() for s in clf.species])
    if rng.random() < .5:
        clf.sort_reactions()
        pos = {s.id: k for k, s in enumerate(clf.species)}
        m.check(sorted(r.id for r in clf.reactions) == sorted(rs), 'sorting lost or repeated reactions')
        keys = [(sorted(pos[j] for j in rs[r.id]['lhs']), sorted(pos[j] for j in rs[r.id]['rhs']))
                for r in clf.reactions]
        m.check(keys == sorted(keys), 'reactions out of order', lambda: [str(r) for r in clf.reactions])
    m.check(where(clf.get_classified_reactions()) == at, 'sorting changed the categories')
    check_aligned(m, clf, by_obj)
    # a history of operations on one classifier
    log = []
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['species', 'reactions', 'align', 'swap', 'classify'])
        log.append(op)
        m.note(history=log)
        if op == 'species':
            clf.sort_species()
        elif op == 'reactions':
            clf.sort_reactions()
        elif op == 'align':
            check_aligned(m, clf, by_obj)
        elif op == 'swap':
            sp2, rs2 = gen.build_objects(spec)
            rng.shuffle(sp2)
            keep = [r for r in rs2 if r.id in rs and rng.random() < .8] or rs2[:0]
            # other reactions under the same ids
            ids = [r.id for r in keep]
            rng.shuffle(ids)
            exp = {}
            for r, new in zip(keep, ids):
                exp[new] = at[r.id]
                r.id = new
            clf.set_new_chemistry(sp2, keep)
            m.check(where(clf.get_classified_reactions()) == exp, 'categories left over from the previous chemistry')
            clf.set_new_chemistry(species, reactions)
        else:
            m.check(where(clf.get_classified_reactions()) == at, 'categories changed')
    check_aligned(m, clf, by_obj)
    m.event('histories')
    if len(types) >= 3:
        m.signature(sorted((str(r), at[r.id][0]) for r in reactions))
        m.sample({str(r): at[r.id][0] for r in reactions[:6]})
