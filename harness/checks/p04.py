"""Dumped chemistry attributes restore the state exactly, and coherence means the same state."""
import warnings

from harness import gen, hist

RULE = ('random chemistry in a random state is dumped; a fresh or further changed chemistry loads the file, whole, '
        'truncated at random bytes, without keys, or against a changed or moved input file; non-trivial: disabled parts '
        'and ad-hoc values are both in the dumped state')
QUICK, THOROUGH = 340, 4500
MIN_EVENTS = {'restored': 56, 'truncated files refused': 225, 'hash mismatch refused': 35, 'coherence answers': 170,
              'continued after restoring': 100, 'attributes of another chemistry refused': 20,
              'old files restored': 20}


def snap(chem):
    d = hist.visible(chem)
    d.update(hist.values(chem))
    return d


def state(ref):
    return (ref.en_sp, ref.en_r, ref.protected, ref.adhoc_protected, ref.adhoc_stick, ref.adhoc_ret, ref.adhoc_a)


def case(m, rng, i):
    from plaschem.exceptions import ChemistryAttributeError
    spec = gen.gen_spec(rng, n_reactions=rng.randint(3, 14))
    m.note(chemistry=gen.describe(spec))
    xml = None
    if rng.random() < .6:
        xml = m.tmp + '/input.xml'
        enc = rng.choice(['ascii', 'utf-8', 'iso-8859-1'])
        with open(xml, 'w', encoding=enc) as f:
            f.write('<?xml version="1.0" encoding="{}"?>\n<chemistry>{}{}</chemistry>\n'.format(
                enc, rng.random(), '' if enc == 'ascii' else 'pr\xfcfen'))
            if rng.random() < .3:
                m.event('long input files')
                f.write('<!-- {} -->\n'.format('long\n' * 10 ** rng.randint(3, 5)))
    h = hist.History(m, rng, spec, gen.build(spec, xml_path=xml))
    h.random_state(steps=rng.randint(1, 8))
    path = m.tmp + '/attributes.yaml'
    dumped, saved_ref = snap(h.chem), h.ref.clone()
    h.chem.dump_chemistry_attributes(path)
    raw = open(path, 'rb').read()
    m.check(not hist.diff(dumped, snap(h.chem)), 'dumping changed the chemistry')
    m.check(h.chem.check_coherence(path) is True, 'incoherent with its own dump')
    m.event('coherence answers')

    # somebody else's state, possibly very different
    target = hist.History(m, rng, spec, gen.build(spec, xml_path=xml)) if rng.random() < .6 else h
    target.random_state(steps=rng.randint(0, 6))
    coherent = target.chem.check_coherence(path)
    m.event('coherence answers')
    same_state = state(target.ref) == state(saved_ref)
    order_only = same_state and target is not h and (saved_ref.adhoc_stick or saved_ref.adhoc_ret or saved_ref.adhoc_a)
    if not order_only and not (same_state and target is h):
        m.check(bool(coherent) == same_state, 'coherence answer wrong',
                lambda: 'answer {} but states equal: {}; {}'.format(coherent, same_state, target.log))

    # refused files first; the state must not move
    before = snap(target.chem)
    cuts = [rng.randrange(len(raw)) for _ in range(3)] + [rng.randrange(max(0, len(raw) - 60), len(raw))]
    for cut in cuts:
        with open(path, 'wb') as f:
            f.write(raw[:cut])
        try:
            target.chem.load_chemistry_attributes(path)
            m.event('truncated files harmless')
            m.check(not hist.diff(dumped, snap(target.chem)), 'truncated file restored another state', 'cut at {} of {}'.format(cut, len(raw)))
            target.ref = saved_ref.clone()
            before = snap(target.chem)
        except ChemistryAttributeError:
            m.event('truncated files refused')
            m.check(not hist.diff(before, snap(target.chem)), 'refused file changed the chemistry', 'cut at {}'.format(cut))
    with open(path, 'wb') as f:
        f.write(raw)
    if xml:
        content = open(xml, encoding=enc).read()
        if rng.random() < .3:       # other line ends are no change
            with open(xml, 'wb') as f:
                f.write(content.encode(enc).replace(b'\n', rng.choice([b'\r\n', b'\r'])))
            target.chem.load_chemistry_attributes(path)
            m.check(not hist.diff(dumped, snap(target.chem)), 'state not restored with other line ends')
            target.ref = saved_ref.clone()
            before = snap(target.chem)
            m.event('other line ends')
        with open(xml, 'w', encoding=enc) as f:
            pos = rng.randrange(len(content)) if rng.random() < .7 else len(content) - 1
            how = rng.choice(['change', 'change', 'change', 'cut', 'insert'])
            f.write(content[:pos] + ('' if how == 'cut' else 'X' if content[pos] != 'X' else 'Y') +
                    content[pos + (how != 'insert'):])
        m.raises(ChemistryAttributeError, 'changed input file not noticed', target.chem.load_chemistry_attributes, path)
        m.check(not target.chem.check_coherence(path), 'coherent with another input file')
        m.check(not hist.diff(before, snap(target.chem)), 'refused file changed the chemistry', 'hash')
        m.event('hash mismatch refused')
        if rng.random() < .5:
            target.chem.load_chemistry_attributes(path, check_hash=False)
            m.check(not hist.diff(dumped, snap(target.chem)), 'state not restored without the hash check')
        with open(xml, 'w', encoding=enc) as f:
            f.write(content)
        moved = gen.build(spec, xml_path=m.tmp + '/elsewhere.xml')
        with open(m.tmp + '/elsewhere.xml', 'w', encoding=enc) as f:
            f.write(content)
        m.raises(ChemistryAttributeError, 'another input path not noticed', moved.load_chemistry_attributes, path)
        m.raises(ChemistryAttributeError, 'no input path not noticed',
                 gen.build(spec).load_chemistry_attributes, path)
    # attributes of another chemistry (other ids), if nothing else tells them apart
    if not xml:
        import yaml
        at = yaml.safe_load(raw)
        part, which = rng.choice(['species_ids', 'reactions_ids']), rng.choice(['enabled', 'disabled'])
        ids = at[part][which]
        free = max(at[part]['enabled'] + at[part]['disabled']) + rng.randint(1, 9)
        k = rng.randrange(4)
        if k == 3 and ids:
            at[part][{'enabled': 'disabled', 'disabled': 'enabled'}[which]].append(rng.choice(ids))     # in both
        elif k == 0 or not ids:
            ids.append(free)
        elif k == 1:
            ids[rng.randrange(len(ids))] = free
        else:
            ids.pop(rng.randrange(len(ids)))
        with open(path, 'w') as f:
            yaml.safe_dump(at, f)
        m.raises(ChemistryAttributeError, 'attributes of another chemistry accepted',
                 target.chem.load_chemistry_attributes, path)
        m.check(not hist.diff(before, snap(target.chem)), 'refused file changed the chemistry', 'other ids')
        m.event('attributes of another chemistry refused')
        # files of the time before protected species could be set ad hoc
        at = yaml.safe_load(raw)
        del at['species_ids']['adhoc_protected']
        with open(path, 'w') as f:
            yaml.safe_dump(at, f)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            target.chem.load_chemistry_attributes(path)
        target.ref = saved_ref.clone()
        target.ref.adhoc_protected = set()
        d = hist.diff(hist.expected_visible(target.ref), hist.visible(target.chem))
        m.check(not d, 'state not restored from an old file', lambda: '{} {}'.format(target.log, d))
        m.event('old files restored')
        with open(path, 'wb') as f:
            f.write(raw)
    # whole file
    target.chem.load_chemistry_attributes(path)
    m.event('restored')
    d = hist.diff(dumped, snap(target.chem))
    m.check(not d, 'state not restored', lambda: 'expected/observed {}'.format(d))
    m.check(target.chem.check_coherence(path) is True, 'incoherent after restoring')
    m.event('coherence answers')
    target.ref = saved_ref.clone()
    again = m.tmp + '/again.yaml'
    target.chem.dump_chemistry_attributes(again)
    m.check(open(again, 'rb').read() == raw, 'second dump differs from the first')
    # whatever happens next has to be the same as for the chemistry which was dumped
    for _ in range(rng.randint(1, 4)):
        ok, got = target.do_disable()
        m.event('continued after restoring')
        m.check(ok == got, 'restored chemistry behaves differently', target.log)
        d = hist.diff(hist.expected_visible(target.ref), hist.visible(target.chem))
        m.check(not d, 'restored chemistry behaves differently', lambda: '{} {}'.format(target.log, d))
        changed = state(target.ref) != state(saved_ref)
        m.check(bool(target.chem.check_coherence(path)) == (not changed), 'coherence answer wrong', target.log)
    target.do_reset()
    d = hist.diff(hist.expected_visible(target.ref), hist.visible(target.chem))
    m.check(not d, 'reset after restoring', lambda: '{} {}'.format(target.log, d))
    if len(saved_ref.en_r) < len(saved_ref.r) and (saved_ref.adhoc_stick or saved_ref.adhoc_ret or saved_ref.adhoc_a):
        m.signature(gen.describe(spec), h.log)
        m.sample({'chemistry': gen.describe(spec), 'history': h.log, 'dump': raw.decode()[:300]})
