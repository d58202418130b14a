"""Model parameters: complete and consistent or refused, the same under every name, and frozen."""
import numpy as np

from harness import gen, odes

RULE = ('random parameter sets in every accepted spelling and container; read back under every name; then one thing at a '
        'time is made wrong (missing, unknown, type, sign, NaN, lengths, time span), and everything passed in or handed '
        'out is overwritten; non-trivial: every case')
QUICK, THOROUGH = 1500, 12000
MIN_EVENTS = {'accepted sets': 266, 'values read back': 6000, 'refused sets': 4000, 'overwritten': 1500}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    return float(v)


def spell(rng, p):
    """(passed dict, kwargs) with alternative names and number types."""
    d = {}
    for k, v in p.items():
        if k in ('power', 't_power'):
            v = rng.choice([list, tuple, np.array])(v)
        elif k == 'feeds':
            v = {n: rng.choice([f, np.float64(f), f]) for n, f in v.items()}
        else:
            v = rng.choice([v, np.float64(v), v])
        d[rng.choice(odes.ALT[k])] = v
    items = list(d.items())
    rng.shuffle(items)
    cut = rng.choice([len(items), len(items), rng.randint(0, len(items)), 0])
    return dict(items[:cut]), dict(items[cut:])


def compare(m, mp, p, what):
    for nom, names in odes.ALT.items():
        for nm in names:
            m.event('values read back')
            m.check(plain(mp[nm]) == plain(p[nom]), what, lambda: '{}: {} instead of {}'.format(nm, mp[nm], p[nom]))
    m.check(set(mp.keys()) == set(odes.ALT) and set(mp) == set(odes.ALT) and len(mp) == len(odes.ALT),
            what + ' (keys)', lambda: list(mp.keys()))
    m.check(plain(dict(mp)) == plain(p), what + ' (as a dict)', lambda: dict(mp))
    m.check({k: plain(v) for k, v in mp.items()} == plain(p), what + ' (items)', lambda: list(mp.items()))
    m.check([plain(v) for v in mp.values()] == [plain(p[k]) for k in mp.keys()], what + ' (values)',
            lambda: list(mp.values()))


def wrong(rng, p):
    """(description, exceptions, parameters) with one thing wrong."""
    from pygmo_fwork.pygmol import exceptions as ex
    inco, typ, any_ = ex.ModelParametersConsistencyError, ex.ModelParametersTypeError, ex.ModelParametersError
    n = len(p['power'])
    out = []

    def add(what, exc, **kw):
        out.append((what, exc, dict(p, **kw)))
    for k in p:
        out.append(('missing ' + k, any_, {kk: v for kk, v in p.items() if kk != k}))
    for k in ('pres', 'Radius', 'temp', 0, 'feed', 't', None):
        out.append(('unknown ' + repr(k), any_, dict(list(p.items()) + [(k, 1.)])))
    for k in ('radius', 'length', 'pressure', 'temp_gas', 't_end'):
        for v in (0, 0., -1., -1e-9, -1e-20, float('nan'), np.float64('nan'), True, False, '1.0', None, [1.], {'a': 1}):
            add('{}={!r}'.format(k, v), typ, **{k: v})
    for v in (None, [], [('Ar', 1.)], 'Ar', 5., ('Ar',)):
        add('feeds={!r}'.format(v), typ, feeds=v)
    for v in (0, -1., -1e-12, float('nan'), True, '5', None, [5.]):
        add('feed of {!r}'.format(v), typ, feeds=dict(p['feeds'], **{'Xx': v}))
    for k in (5, None, ('Ar',)):
        add('feed species {!r}'.format(k), typ, feeds=dict(list(p['feeds'].items()) + [(k, 1.)]))
    j = rng.randrange(n)
    for v in (-1., -1e-9, -1e-15, float('nan'), True, '5', None, [5.]):
        add('power of {!r}'.format(v), typ, power=[v if k == j else x for k, x in enumerate(p['power'])])
    for v in (float('nan'), False, '5', None):
        add('power time {!r}'.format(v), typ, t_power=[v if k == j else x for k, x in enumerate(p['t_power'])])
    for v in (5., None, '55', 0):
        add('power={!r}'.format(v), typ, power=v)
        add('t_power={!r}'.format(v), typ, t_power=v)
    add('one power', inco, power=p['power'][:1], t_power=p['t_power'][:1])
    add('no power', inco, power=[], t_power=[])
    add('more powers than times', inco, power=list(p['power']) + [1.])
    add('more times than powers', inco, t_power=list(p['t_power']) + [p['t_power'][-1] + 1])
    late = list(p['t_power'])
    late[0] = abs(p['t_end']) * 1e-3
    add('power starts late', inco, t_power=late)
    early = list(p['t_power'])
    early[-1] = rng.choice([1.09, 1., .5, 0.]) * p['t_end']
    add('power ends early', inco, t_power=early)
    add('longer run than power', inco, t_end=p['t_power'][-1] / 1.09)
    return out


def case(m, rng, i):
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    from pygmo_fwork.pygmol import exceptions as ex
    p = odes.gen_params(rng, {'species': [{'name': n, 'q': 0, 'form': n, 'id': k} for k, n in
                                          enumerate(['Ar', 'N2', 'O2', 'Ar*', 'H2O(v=1)'])]})
    m.note(params=p)
    for _ in range(2):
        d, kw = spell(rng, p)
        mp = ModelParameters(d, **kw) if d or rng.random() < .5 else ModelParameters(**kw)
        m.event('accepted sets')
        compare(m, mp, p, 'parameter read back')
    # one given again by a keyword is amended
    d, kw = spell(rng, p)
    d = dict(d, **kw)
    for k in rng.sample(['radius', 'length', 'pressure', 'temp_gas', 'feeds'], rng.randint(1, 3)):
        key = [x for x in d if x in odes.ALT[k]][0]
        v = d[key]
        d[key] = {'Kr': 2.} if k == 'feeds' else rng.choice([3., 7, 'x', -1., None])
        m.event('amended by a keyword')
        compare(m, ModelParameters(dict(d), **{key: v}), p, 'keyword parameter overrides')
        d[key] = v
    # the same set made wrong
    todo = wrong(rng, p)
    rng.shuffle(todo)
    for what, exc, bad in todo[:30]:
        d = {rng.choice(odes.ALT[k]) if k in odes.ALT else k: v for k, v in bad.items()}
        items = list(d.items())
        rng.shuffle(items)
        m.event('refused sets')
        m.raises(exc, 'accepted: ' + what.split('=')[0].split(' of ')[0], ModelParameters, dict(items))
    # what is handed in or out does not reach what is inside
    for k in list(d):
        pass
    given = {k: (list(v) if k in ('power', 't_power') else dict(v) if k == 'feeds' else v) for k, v in p.items()}
    mp = ModelParameters(given)
    for k in rng.sample(['power', 't_power', 'feeds', 'radius'], 4):
        m.event('overwritten')
        if k == 'feeds':
            given[k]['Xx'] = 5.
        elif k == 'radius':
            given[k] = 77.
        else:
            given[k][rng.randrange(len(given[k]))] = 55.
            if rng.random() < .5:
                given[k].append(1.)
        compare(m, mp, p, 'changed with what was passed in')
    arr = np.array(p['power'], float)
    mp = ModelParameters(dict(p, power=arr))
    arr[:] = 5e5
    m.event('overwritten')
    compare(m, mp, p, 'changed with what was passed in')
    for k in odes.ALT:
        for v in [mp[rng.choice(odes.ALT[k])], dict(mp)[k], dict(mp.items())[k], list(mp.values())[list(mp.keys()).index(k)]]:
            m.event('overwritten')
            if isinstance(v, list):
                v[0] = -5.
                v.append(3.)
            elif isinstance(v, dict):
                v['Xx'] = -3.
        m.raises(TypeError, 'parameter set after the instantiation', mp.__setitem__, rng.choice(odes.ALT[k]), p[k])
        m.raises(TypeError, 'parameter deleted', mp.__delitem__, rng.choice(odes.ALT[k]))
    compare(m, mp, p, 'changed through what was handed out')
    for k in ('Power', 'x', None, 0):
        m.raises(ex.ModelParametersError, 'unknown parameter read', mp.__getitem__, k)
    m.signature(p)
    m.sample(p)
