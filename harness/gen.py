"""Random consistent plasma chemistries as plain data (specs), and their construction as real objects.

A spec is {'species': [...], 'reactions': [...]}; everything the oracles need (atoms, charge, stoichiometry, values in
plain floats) is in the spec, so that no oracle has to ask the code under test what its own input was.
"""
import itertools
import math

FORMULAE = {
    'H': {'H': 1}, 'H2': {'H': 2}, 'N': {'N': 1}, 'N2': {'N': 2}, 'O': {'O': 1}, 'O2': {'O': 2}, 'O3': {'O': 3},
    'NO': {'N': 1, 'O': 1}, 'N2O': {'N': 2, 'O': 1}, 'NO2': {'N': 1, 'O': 2}, 'H2O': {'H': 2, 'O': 1},
    'OH': {'O': 1, 'H': 1}, 'He': {'He': 1}, 'Ar': {'Ar': 1}, 'Cl': {'Cl': 1}, 'Cl2': {'Cl': 2},
    'HCl': {'H': 1, 'Cl': 1}, 'C': {'C': 1}, 'CF': {'C': 1, 'F': 1}, 'CF2': {'C': 1, 'F': 2},
    'CF3': {'C': 1, 'F': 3}, 'CF4': {'C': 1, 'F': 4}, 'F': {'F': 1}, 'F2': {'F': 2}, 'NH3': {'N': 1, 'H': 3},
    'NH': {'N': 1, 'H': 1}, 'CO': {'C': 1, 'O': 1}, 'CO2': {'C': 1, 'O': 2}, 'SiH4': {'Si': 1, 'H': 4},
    'SiH2': {'Si': 1, 'H': 2}, 'Si': {'Si': 1}, 'NF3': {'N': 1, 'F': 3}, 'Ne': {'Ne': 1}, 'Ar2': {'Ar': 2},
    'He2': {'He': 2}, 'CH4': {'C': 1, 'H': 4}, 'CH3': {'C': 1, 'H': 3}, 'HF': {'H': 1, 'F': 1}, 'S': {'S': 1},
    'SF6': {'S': 1, 'F': 6}, 'SF5': {'S': 1, 'F': 5}, 'HCN': {'H': 1, 'C': 1, 'N': 1}, 'HNO': {'H': 1, 'N': 1, 'O': 1},
    'HNO3': {'H': 1, 'N': 1, 'O': 3}, 'CHF3': {'C': 1, 'H': 1, 'F': 3}, 'CH2F2': {'C': 1, 'H': 2, 'F': 2},
    'COF2': {'C': 1, 'O': 1, 'F': 2}, 'C2H2': {'C': 2, 'H': 2}, 'C2F6': {'C': 2, 'F': 6},
    'HOCl': {'H': 1, 'O': 1, 'Cl': 1}, 'SiH2Cl2': {'Si': 1, 'H': 2, 'Cl': 2},
}
MASSES = {'H': 1.008, 'He': 4.0026, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998, 'Ne': 20.18, 'Si': 28.085,
          'Cl': 35.45, 'Ar': 39.948, 'S': 32.06}
STATES = ['*', '**', '(v=1)', '(v=2)', '(1D)', '(4S)', '(a)', '(3P)']


def charge_suffix(rng, q):
    if q == 0:
        return ''
    sign = '+' if q > 0 else '-'
    n = abs(q)
    if n == 1:
        return sign
    return sign * n if rng.random() < .5 else sign + str(n)


def num(rng, x, types=('float', 'str', 'np', 'int')):
    """The same number in one of the types which the attribute accepts."""
    import numpy as np
    t = rng.choice(types)
    if t == 'int':
        return int(x) if float(x) == int(x) else float(x)
    if t == 'str':
        return str(int(x)) if float(x) == int(x) and rng.random() < .5 else repr(float(x))
    if t == 'np':
        return np.float64(x)
    return float(x)


def gen_species_pool(rng, n_heavy, special_m=None, hostile=False, multi_charge=True, states=True, elements=None):
    elements = elements or rng.sample(['H', 'N', 'O', 'Ar', 'He', 'C', 'F', 'Cl', 'Si', 'Ne', 'S'], rng.choice([1, 1, 2, 2, 3]))
    forms = [f for f, a in FORMULAE.items() if set(a) <= set(elements)]
    heavy, seen = [], set()

    def add(form, q, state):
        if state is None:
            stateless_name = form + charge_suffix(rng, q)
            name = stateless_name
        else:
            stateless_name = form + charge_suffix(rng, q)
            name = stateless_name + state
        key = (form, q, state)
        if key in seen or name in {h['name'] for h in heavy}:
            return
        seen.add(key)
        heavy.append({'name': name, 'form': form, 'q': q, 'stateless_name': stateless_name,
                      'statelabel': state, 'atoms': dict(FORMULAE[form])})
    # at least one neutral ground state and one positive ion
    f0 = rng.choice(forms)
    add(f0, 0, None)
    add(f0, 1, rng.choice(STATES) if states and rng.random() < .2 else None)
    tries = 0
    while len(heavy) < n_heavy and tries < 60:
        tries += 1
        form = rng.choice(forms)
        q = rng.choice([0, 0, 0, 1, 1, -1] + ([2, -2, rng.choice([2, -2, 3, -3])] if multi_charge else []))
        state = rng.choice(STATES) if states and rng.random() < .35 else None
        add(form, q, state)
    rng.shuffle(heavy)
    return heavy


def gen_spec(rng, n_heavy=None, n_reactions=None, with_m=None, surface='random', types=True, hostile=True,
             arrhenius='random', max_products=4, extra_attrs=True, states=True, elements=None):
    """A random consistent chemistry."""
    n_heavy = n_heavy or rng.choice([2, 3, 4, 5, 6, 7, 8])
    pool = gen_species_pool(rng, n_heavy, states=states, elements=elements)
    with_m = rng.random() < .5 if with_m is None else with_m
    members = [{'name': 'e', 'form': None, 'q': -1, 'stateless_name': 'e', 'statelabel': None, 'atoms': {}}] + pool
    if with_m:
        members.append({'name': 'M', 'form': None, 'q': None, 'stateless_name': 'M', 'statelabel': None,
                        'atoms': {'M': 1}})
    # all multisets of up to 3 (4) members by what they conserve
    idx = range(len(members))
    groups = {}
    sizes = [1, 2, 3] + ([4] if max_products >= 4 and len(members) <= 9 else [])
    for size in sizes:
        for ms in itertools.combinations_with_replacement(idx, size):
            atoms, q = {}, 0
            for k in ms:
                for el, c in members[k]['atoms'].items():
                    atoms[el] = atoms.get(el, 0) + c
                q += members[k]['q'] or 0
            groups.setdefault((tuple(sorted(atoms.items())), q), []).append(ms)
    sides = [(key, ms) for key, g in groups.items() for ms in g if len(ms) <= 3]
    m_idx = len(members) - 1 if with_m else None
    n_reactions = n_reactions or rng.randint(2, 3 + 2 * len(members))
    reactions, used, seen = [], set(), set()
    tries = 0
    good = [s for s in sides if len(groups[s[0]]) > 1]

    def push(lhs, rhs):
        lhs, rhs = list(lhs), list(rhs)
        rng.shuffle(lhs)
        rng.shuffle(rhs)
        key = (tuple(sorted(lhs)), tuple(sorted(rhs)))
        if key in seen and rng.random() < .8:
            return
        seen.add(key)
        reactions.append((lhs, rhs))
        used.update(lhs)
        used.update(rhs)
    while good and len(reactions) < n_reactions and tries < 200:
        tries += 1
        key, lhs = rng.choice(good)
        rhs = rng.choice(groups[key])
        if all(members[k]['name'] == 'M' for k in lhs) or all(members[k]['name'] == 'e' for k in lhs):
            continue
        if lhs == rhs and rng.random() < .8:
            continue
        push(lhs, rhs)
    missing = [k for k in idx if k not in used]
    for k in missing:
        if members[k]['name'] == 'e':
            tgt = rng.choice([j for j in idx if members[j]['form']])
            push([k, tgt], [k, tgt])
        elif members[k]['name'] == 'M':
            tgt = rng.choice([j for j in idx if members[j]['form']])
            push([tgt, k], [tgt, k])
        else:
            partner = rng.choice([0] + ([m_idx] if with_m else []) + [j for j in idx if members[j]['form']])
            push([k, partner], [k, partner])
    # the elastic fallback uses push, which may drop a duplicate; make sure everything is used
    for k in idx:
        if k not in used:
            reactions.append(([0, k], [0, k]))
            used.add(k)
            used.add(0)

    # ids and order
    n = len(members)
    style = rng.choice(['plain', 'random', 'random', 'dense'])
    if style == 'plain':
        ids = [0] + list(range(1, n)) if not with_m else [0] + list(range(1, n - 1)) + [999]
    elif style == 'dense':
        ids = list(range(n))
        rng.shuffle(ids)
    else:
        ids = rng.sample(range(0, 60), n)
    rids = rng.sample(range(1, 90), len(reactions)) if style != 'plain' else list(range(1, len(reactions) + 1))
    spec = {'species': [], 'reactions': []}
    ground = {m['form'] for m in members if m['form'] and m['q'] == 0 and m['statelabel'] is None and
              m['name'] == m['form']}
    heavy_names = [m['name'] for m in members if m['form']]
    for m, i in zip(members, ids):
        s = {'id': i, 'name': m['name'], 'atoms': m['atoms'], 'q': m['q'], 'special': m['form'] is None,
             'form': m['form'], 'excited': m['statelabel'] is not None, 'attrs': {'name': m['name']}, 'units': {}}
        at = s['attrs']
        if m['name'] == 'e':
            mass = 5.4858e-4
            at['charge'] = rng.choice([-1, '-1'])
        elif m['name'] == 'M':
            mass = None
        else:
            mass = sum(MASSES[el] * c for el, c in m['atoms'].items()) - 5.4858e-4 * m['q']
            if m['q'] != 0 or rng.random() < .5:
                at['charge'] = rng.choice([m['q'], str(m['q'])])
            if m['statelabel'] is not None:
                at['state'] = m['statelabel'].strip('()')
                at['stateless'] = m['stateless_name']
            elif rng.random() < .3:
                at['stateless'] = m['stateless_name']
        if mass is not None:
            at['mass'] = num(rng, mass)
            if rng.random() < .3:
                s['units']['mass'] = 'amu'
        s['mass'] = mass
        if m['form']:
            if rng.random() < .7:
                v = round(rng.uniform(-5, 15), 3)
                at['h_form'] = num(rng, v)
                s['h_form'] = v
                if rng.random() < .3:
                    s['units']['h_form'] = 'eV'
            else:
                s['h_form'] = 0.
            if rng.random() < .7:
                v = float(rng.randint(1, 300))
                at['lj_epsilon'] = num(rng, v)
                s['lj_epsilon'] = v
            else:
                s['lj_epsilon'] = 0.
            if rng.random() < .7:
                v = round(rng.uniform(1, 6), 2)
                at['lj_sigma'] = num(rng, v)
                s['lj_sigma'] = v
                if rng.random() < .3:
                    s['units']['lj_sigma'] = 'A'
            else:
                s['lj_sigma'] = 3.
            neutral_ground = m['q'] == 0 and m['statelabel'] is None
            default_ret_ok = neutral_ground or m['form'] in ground
            s['stick_coef'] = 0. if neutral_ground else 1.
            s['ret_coefs'] = {} if neutral_ground else {m['form']: 1.}
            if surface == 'physical':
                # returned heavy particles: conserve the atoms, one ground state neutral
                if neutral_ground:
                    if rng.random() < .3:
                        s['stick_coef'] = round(rng.uniform(.05, 1.), 3)
                        if rng.random() < .2:
                            s['stick_coef'] = float('{:.3g}'.format(10 ** rng.uniform(-9, -2)))
                        at['stick_coef'] = s['stick_coef']
                        s['ret_coefs'] = {m['form']: 1.}
                        at['ret_coefs'] = {m['form']: 1.}
                elif not default_ret_ok:
                    at['ret_coefs'] = {m['name']: 1.}
                    s['ret_coefs'] = {m['name']: 1.}
            else:
                if rng.random() < .5:
                    v = rng.choice([0., 1., round(rng.random(), 4), round(rng.random(), 15), float('{:.3g}'.format(10 ** rng.uniform(-9, -2)))])
                    at['stick_coef'] = num(rng, v)
                    s['stick_coef'] = v
                if not default_ret_ok or rng.random() < .4:
                    k = rng.randint(0 if rng.random() < .3 else 1, min(3, len(heavy_names)))
                    ret = {}
                    raw = {}
                    for nm in rng.sample(heavy_names, k):
                        ret[nm] = round(rng.random(), rng.choice([4, 4, 4, 15])) or .5
                        if rng.random() < .08:
                            ret[nm] = round(ret[nm] * 1e-4, 9)
                        raw[nm] = num(rng, ret[nm])
                    at['ret_coefs'] = raw
                    s['ret_coefs'] = ret
        else:
            s['h_form'] = s['lj_epsilon'] = s['lj_sigma'] = s['stick_coef'] = s['ret_coefs'] = None
        if extra_attrs and rng.random() < .3:
            at['qdb_id'] = rng.choice([rng.randint(1, 999), str(rng.randint(1, 999))])
        if extra_attrs and rng.random() < .3:
            at['hpem_name'] = 'H{}'.format(i)
        if extra_attrs and rng.random() < .2:
            at['comments'] = rng.choice(['made up', 'a & b < c', 'x "quoted" y', 'naïve – unicode', "it's"])
        spec['species'].append(s)
    by = {k: i for k, i in enumerate(ids)}
    for (lhs, rhs), r_id in zip(reactions, rids):
        spec['reactions'].append(gen_reaction(rng, r_id, [by[k] for k in lhs], [by[k] for k in rhs],
                                              {i: m['name'] for m, i in zip(members, ids)}, arrhenius, extra_attrs))
    if style != 'plain':
        rng.shuffle(spec['species'])
        rng.shuffle(spec['reactions'])
    return spec


def gen_reaction(rng, r_id, lhs, rhs, names, arrhenius='random', extra_attrs=True):
    r = {'id': r_id, 'lhs': lhs, 'rhs': rhs, 'attrs': {}, 'units': {}}
    at, un = r['attrs'], r['units']
    electron = any(names[i] == 'e' for i in lhs)
    r['electron'] = electron
    n = len(lhs)
    unit = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}[n]
    unit = rng.choice(unit)
    factor = {'s-1': 1., 'm3.s-1': 1., 'm6.s-1': 1., 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}[unit]
    if rng.random() < .05:
        a = 0.
    else:
        a = float('{:.4e}'.format(10. ** rng.uniform(-3, 1)))
        a *= {1: 1e4, 2: 1e-14, 3: 1e-40}[n] / factor
        a = float('{:.6e}'.format(a))
    at['arrh_a'] = num(rng, a)
    un['arrh_a'] = unit
    r['a'], r['factor'], r['unit'] = a, factor, unit
    b = 0.
    if rng.random() < .6:
        b = round(rng.uniform(-2, 2), 2) if rng.random() < .85 else rng.choice([-1., 1., 2., .5])
        at['arrh_b'] = num(rng, b)
    c = 0.
    if rng.random() < .6:
        c = round(rng.uniform(0, rng.choice([.5, 1., 15.])), 3) if electron else float(rng.randint(0, 5000))
        if electron and rng.random() < .1:
            c = rng.choice([1., 2.])
        if rng.random() < .08:
            c = -c
        at['arrh_c'] = num(rng, c)
        un['arrh_c'] = 'eV' if electron else 'K'
    r['b'], r['c'] = b, c
    r['el_en_loss'] = r['gas_heat_contrib'] = 0.
    if rng.random() < .4:
        r['el_en_loss'] = round(rng.uniform(-5, 20), 3)
        at['el_en_loss'] = num(rng, r['el_en_loss'])
        if rng.random() < .4:
            un['el_en_loss'] = 'eV'
    if rng.random() < .3:
        r['gas_heat_contrib'] = round(rng.uniform(-3, 5), 3)
        at['gas_heat_contrib'] = num(rng, r['gas_heat_contrib'])
    r['elastic'] = set(lhs) == set(rhs)
    if rng.random() < .15:
        r['elastic'] = rng.random() < .5
        at['elastic'] = rng.choice([r['elastic'], str(r['elastic']), str(r['elastic']).lower(),
                                    str(r['elastic']).upper()])
    r['special_number'] = 10 if electron else 20
    if rng.random() < .2:
        r['special_number'] = rng.randint(-2000, 50)
        at['special_number'] = rng.choice([r['special_number'], str(r['special_number'])])
    if extra_attrs:
        if rng.random() < .2:
            at['qdb_r_id'] = rng.choice([rng.randint(1, 9999), str(rng.randint(1, 9999))])
        if rng.random() < .2:
            at['doi'] = '10.1000/x{}'.format(rng.randint(1, 99))
        if rng.random() < .2:
            at['comments'] = rng.choice(['made up', 'k > 0 & k < 1', '"quoted"', 'Žižka'])
    return r


# ---- construction of real objects ----------------------------------------------------------------------------------

def build_objects(spec):
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    rps = {}
    species = []
    for s in spec['species']:
        rp = RP(s['id'], attributes=dict(s['attrs']), units=dict(s['units']))
        rps[s['id']] = rp
        species.append(rp)
    reactions = [Reaction(r['id'], [rps[i] for i in r['lhs']], [rps[i] for i in r['rhs']],
                          attributes=dict(r['attrs']), units=dict(r['units'])) for r in spec['reactions']]
    return species, reactions


def build(spec, cls=None, **kw):
    from plaschem.chemistry import Chemistry
    species, reactions = build_objects(spec)
    return (cls or Chemistry)(species=species, reactions=reactions, **kw)


# ---- the reference model of a chemistry's state --------------------------------------------------------------------

class Ref:
    """What the chemistry must look like, computed from the spec alone."""

    def __init__(self, spec):
        self.spec = spec
        self.sp = {s['id']: s for s in spec['species']}
        self.r = {r['id']: r for r in spec['reactions']}
        self.order = [s['id'] for s in spec['species']]
        self.rorder = [r['id'] for r in spec['reactions']]
        self.by_name = {s['name']: s['id'] for s in spec['species']}
        self.en_sp = set(self.order)
        self.en_r = set(self.rorder)
        self.protected = {self.by_name['e']} if 'e' in self.by_name else set()
        pos = self.pos_ions()
        if len(pos) == 1:
            self.protected |= pos
        self.adhoc_protected = set()
        self.adhoc_stick, self.adhoc_ret, self.adhoc_a = {}, {}, {}

    def clone(self):
        import copy
        new = self.__class__.__new__(self.__class__)
        new.__dict__ = dict(self.__dict__)
        for k in ('en_sp', 'en_r', 'protected', 'adhoc_protected', 'adhoc_stick', 'adhoc_ret', 'adhoc_a'):
            setattr(new, k, copy.deepcopy(getattr(self, k)))
        return new

    def pos_ions(self, among=None):
        among = self.en_sp if among is None else among
        return {i for i in among if (self.sp[i]['q'] or 0) > 0}

    def all_protected(self):
        return self.protected | self.adhoc_protected

    def closure(self, dis_sp, dis_r):
        """Least set of species and reactions which has to go with these (greatest consistent sub-network)."""
        ds = (set(self.order) - self.en_sp) | set(dis_sp)
        dr = (set(self.rorder) - self.en_r) | set(dis_r)
        while True:
            nr = {r for r in self.r if r not in dr and set(self.r[r]['lhs'] + self.r[r]['rhs']) & ds}
            dr2 = dr | nr
            used = set()
            for r in self.r:
                if r not in dr2:
                    used |= set(self.r[r]['lhs'] + self.r[r]['rhs'])
            nd = {s for s in self.sp if s not in ds and s not in used}
            if not nr and not nd:
                return ds, dr
            ds |= nd
            dr = dr2

    def disable_outcome(self, dis_sp, dis_r):
        """(ok, disabled species, disabled reactions): refused if a protected species or the last +ion would go."""
        ds, dr = self.closure(dis_sp, dis_r)
        newly = ds & self.en_sp
        left = set(self.order) - ds
        ok = not (newly & self.all_protected()) and bool(self.pos_ions(left))
        return ok, ds, dr

    def disable(self, dis_sp, dis_r):
        ok, ds, dr = self.disable_outcome(dis_sp, dis_r)
        if ok and (ds & self.en_sp or dr & self.en_r):
            self.en_sp = set(self.order) - ds
            self.en_r = set(self.rorder) - dr
            pos = self.pos_ions()
            if len(pos) == 1:
                self.adhoc_protected |= pos
        return ok

    def reset(self):
        self.en_sp, self.en_r, self.adhoc_protected = set(self.order), set(self.rorder), set()

    # ---- values
    def species_ids(self, disabled=False, special=False, protected=True):
        return [i for i in self.order if (disabled or i in self.en_sp) and (special or not self.sp[i]['special']) and
                (protected or i not in self.all_protected())]

    def reaction_ids(self, disabled=False):
        return [i for i in self.rorder if disabled or i in self.en_r]

    def stick(self, i):
        return self.adhoc_stick.get(i, self.sp[i]['stick_coef'])

    def ret(self, i):
        v = self.adhoc_ret.get(i, self.sp[i]['ret_coefs'])
        if v is None:
            return None
        if self.stick(i) == 0.:
            return {}
        return {n: c for n, c in v.items() if self.by_name[n] in self.en_sp}

    def arrh_a(self, i, si=True):
        a = self.adhoc_a.get(i, self.r[i]['a'])
        return a * self.r[i]['factor'] if si else a

    def stoich(self, r_id, sp_id, method):
        r = self.r[r_id]
        lhs, rhs = r['lhs'].count(sp_id), r['rhs'].count(sp_id)
        return {'lhs': lhs, 'rhs': rhs, 'net': rhs - lhs}[method]


def describe(spec):
    names = {s['id']: s['name'] for s in spec['species']}
    return '; '.join('R{}: {} > {}'.format(r['id'], ' + '.join(names[i] for i in r['lhs']),
                                           ' + '.join(names[i] for i in r['rhs'])) for r in spec['reactions'])
