"""Histories of public operations on a chemistry, applied in lockstep to the real object and to the reference."""
import math

import numpy as np

from harness import gen

NAN = float('nan')


def same(a, b):
    """Equality of values where a missing number may be None or NaN, and the number type does not matter."""
    if a is None or (isinstance(a, float) and a != a):
        return b is None or (isinstance(b, (float, np.floating)) and b != b)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        if b is None or b != b:
            return False
    except Exception:
        pass
    if isinstance(a, (float, np.floating)):
        return isinstance(b, (int, float, np.number)) and math.isclose(a, b, rel_tol=1e-12, abs_tol=0.)
    return a == b


def pick_identifier(rng, chem, rp, allow_np=True):
    """Every documented way to point to a species."""
    k = rng.randrange(4 if allow_np else 3)
    if k == 0:
        return rp.id
    if k == 1:
        return rp.get_name()
    if k == 2:
        return rp
    return np.int64(rp.id)


class History:
    def __init__(self, m, rng, spec, chem, ref=None):
        self.m, self.rng, self.spec, self.chem = m, rng, spec, chem
        self.ref = ref or gen.Ref(spec)
        self.log = []
        self.objs = {rp.id: rp for rp in chem.get_species(disabled=True, special=True)}

    # -- operations ----------------------------------------------------------------------------------------------
    def ident(self, i):
        return pick_identifier(self.rng, self.chem, self.objs[i])

    def do_disable(self, sp=None, rs=None):
        """Returns (expected success, observed success)."""
        from plaschem.exceptions import ChemistryDisableError
        rng, ref = self.rng, self.ref
        if sp is None:
            bias = rng.random()
            cand = [i for i in ref.order if not (i not in ref.en_sp and i in ref.all_protected())]
            if bias < .5:   # mostly things which may go
                cand = [i for i in cand if i not in ref.all_protected()] or cand
            k = rng.choice([0, 1, 1, 1, 2, 3])
            sp = [rng.choice(cand) for _ in range(k)]
            kr = rng.choice([0, 0, 1, 1, 2, 4]) if sp else rng.choice([0, 1, 1, 2, 3, len(ref.rorder)])
            rs = [rng.choice(ref.rorder) for _ in range(kr)]
        idents = [self.ident(i) for i in sp]
        self.log.append('disable(species={}, reactions={})'.format(idents, rs))
        self.m.note(history=self.log)
        container = rng.choice([tuple, list])
        ok = ref.disable(sp, rs)
        try:
            if rng.random() < .3 and not rs:
                self.chem.disable(species=container(idents))
            elif rng.random() < .3 and not idents:
                self.chem.disable(reactions=container(rs))
            else:
                self.chem.disable(species=container(idents), reactions=container(rs))
            got = True
        except ChemistryDisableError:
            got = False
        self.m.event('disable accepted' if got else 'disable refused')
        return ok, got

    def do_protect(self, ids=None):
        rng, ref = self.rng, self.ref
        if ids is None:
            cand = [i for i in ref.order if i in ref.en_sp]
            ids = [rng.choice(cand) for _ in range(rng.choice([1, 1, 2]))]
        args = [self.ident(i) for i in ids]
        self.log.append('set_protected_species({})'.format(args))
        self.m.note(history=self.log)
        self.chem.set_protected_species(*args)
        ref.protected |= set(ids)
        self.m.event('protect')

    def do_reset(self):
        self.log.append('reset()')
        self.m.note(history=self.log)
        self.chem.reset()
        self.ref.reset()
        self.m.event('reset')

    def do_adhoc(self):
        rng, ref = self.rng, self.ref
        kind = rng.choice(['stick_coef', 'ret_coefs', 'arrh_a', 'reset'])
        heavy = [i for i in ref.order if not ref.sp[i]['special']]
        if kind == 'stick_coef':
            i = rng.choice(heavy)
            v = rng.choice([0., 1., round(rng.random(), 5)])
            raw = rng.choice([v, np.float64(v), v])
            self.log.append('adhoc stick_coef {} = {!r}'.format(i, raw))
            self.chem.set_adhoc_species_attributes('stick_coef', self.ident(i), raw)
            ref.adhoc_stick[i] = v
        elif kind == 'ret_coefs':
            i = rng.choice(heavy)
            pool = [ref.sp[j]['name'] for j in heavy if j in ref.en_sp]
            v = {n: round(rng.random(), 5) for n in rng.sample(pool, rng.randint(0, min(3, len(pool))))}
            raw = {n: rng.choice([c, np.float64(c)]) for n, c in v.items()}
            self.log.append('adhoc ret_coefs {} = {!r}'.format(i, raw))
            self.chem.set_adhoc_species_attributes('ret_coefs', self.ident(i), raw)
            ref.adhoc_ret[i] = v
        elif kind == 'arrh_a':
            i = rng.choice(ref.rorder)
            v = ref.r[i]['a'] * rng.choice([.5, 2., 10.]) + rng.choice([0., 1e-20])
            raw = rng.choice([v, np.float64(v)])
            self.log.append('adhoc arrh_a {} = {!r}'.format(i, raw))
            self.chem.set_adhoc_reactions_attributes('arrh_a', i, raw)
            ref.adhoc_a[i] = v
        else:
            which = rng.choice(['stick_coef', 'ret_coefs', 'arrh_a', 'all species', 'all reactions'])
            self.log.append('reset adhoc ' + which)
            if which == 'all species':
                self.chem.reset_adhoc_species_attributes('all')
                ref.adhoc_stick, ref.adhoc_ret = {}, {}
            elif which == 'all reactions':
                self.chem.reset_adhoc_reactions_attributes('all')
                ref.adhoc_a = {}
            elif which == 'arrh_a':
                self.chem.reset_adhoc_reactions_attributes(which)
                ref.adhoc_a = {}
            else:
                self.chem.reset_adhoc_species_attributes(which)
                setattr(ref, {'stick_coef': 'adhoc_stick', 'ret_coefs': 'adhoc_ret'}[which], {})
        self.m.note(history=self.log)
        self.m.event('adhoc ' + kind)

    def random_state(self, steps=None, adhoc=True):
        """Drive the pair into some state, without judging the steps (other properties do)."""
        for _ in range(self.rng.randint(0, 6) if steps is None else steps):
            op = self.rng.choice(['disable', 'disable', 'disable', 'protect', 'reset'] + (['adhoc'] * 3 if adhoc else []))
            self.step(op)

    def step(self, op):
        if op == 'disable':
            ok, got = self.do_disable()
            return ok, got
        getattr(self, 'do_' + op)()
        return None


# ---- what is publicly visible of the disabling state ---------------------------------------------------------------

def visible(chem):
    return {
        'enabled species': [sp.id for sp in chem.get_species(special=True)],
        'enabled ordinary species': [sp.id for sp in chem.get_species()],
        'disabled species': [sp.id for sp in chem.get_disabled_species()],
        'protected species': [sp.id for sp in chem.get_protected_species()],
        'enabled reactions': [r.id for r in chem.get_reactions()],
        'disabled reactions': [r.id for r in chem.get_disabled_reactions()],
        'numbers': (chem.num_species(), chem.num_species(special=True), chem.num_species(disabled=True),
                    chem.num_reactions()),
    }


def expected_visible(ref):
    return {
        'enabled species': ref.species_ids(special=True),
        'enabled ordinary species': ref.species_ids(),
        'disabled species': [i for i in ref.order if i not in ref.en_sp],
        'protected species': [i for i in ref.order if i in ref.all_protected()],
        'enabled reactions': ref.reaction_ids(),
        'disabled reactions': [i for i in ref.rorder if i not in ref.en_r],
        'numbers': (len(ref.species_ids()), len(ref.species_ids(special=True)), len(ref.species_ids(disabled=True)),
                    len(ref.reaction_ids())),
    }


def plain(x):
    if isinstance(x, dict):
        return tuple(sorted((k, plain(v)) for k, v in x.items()))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return 'nan' if x != x else float(x)
    return 'nan' if x is None else x if isinstance(x, str) else repr(x)


def values(chem):
    """Everything the chemistry-level getters return, as plain data."""
    out = {}
    for nm in ('name', 'charge', 'mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef', 'ret_coefs'):
        s = getattr(chem, 'get_species_' + nm)(disabled=True, special=True)
        out[nm] = [(i, plain(s.at[i])) for i in s.index]
        s = getattr(chem, 'get_species_' + nm)()
        out[nm + ' enabled'] = [(i, plain(s.at[i])) for i in s.index]
    for nm in ('arrh_a', 'arrh_b', 'arrh_c', 'el_en_loss', 'ges_heat_contrib', 'elastic'):
        s = getattr(chem, 'get_reactions_' + nm)(disabled=True)
        out[nm] = [(i, plain(s.at[i])) for i in s.index]
    s = chem.get_reactions_arrh_a(si_units=False)
    out['arrh_a nominal'] = [(i, plain(s.at[i])) for i in s.index]
    for m in ('lhs', 'rhs', 'net'):
        out['stoich ' + m] = chem.get_stoichiomatrix(method=m).values.tolist()
    out['return'] = chem.get_return_matrix().values.tolist()
    return out


def diff(a, b):
    return {k: (a[k], b.get(k)) for k in a if a[k] != b.get(k)}
