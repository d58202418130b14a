"""python3 tools/plant.py DEF.py...: make a planted bug from its definition and confirm it.

DEF.py has ID, PROPERTY, FILE, EDITS [(old, new)], NEEDS, WHAT, DEMO (python source; `from common import *`). The change
is made in /repo, confirmed (builds, stable tests pass, demonstration fails), shown to the check, and undone.
"""
import json
import os
import re
import runpy
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''"""A small chemistry to demonstrate with (run in the root of the repository)."""
import os
import sys
import tempfile

os.environ['HOME'] = HOME = tempfile.mkdtemp()
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
open(os.path.join(HOME, '.pygmofwork'), 'w').write('workspace: ' + os.path.join(HOME, 'workspace') + chr(10))
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import atexit
import shutil
import warnings

atexit.register(shutil.rmtree, HOME, ignore_errors=True)
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from plaschem.species import RP

MASS = {'Ar': 40., 'O': 16., 'O2': 32., 'O3': 48., 'N2': 28., 'He': 4.}


def rp(i, name, **kw):
    """Species from its name; the charge and the neutral follow from it."""
    base = name.rstrip('+-*')
    q = name.count('+') - name.count('-')
    at = {'name': name, 'mass': MASS[base], 'lj_sigma': 3.5, 'lj_epsilon': 120., 'h_form': 1. * i}
    if q:
        at['charge'] = q
    if '*' in name:
        at['stateless'] = name.replace('*', '')
    at.update(kw)
    return RP(i, attributes=at)


def electron(i=100):
    return RP(i, attributes={'name': 'e', 'charge': -1, 'mass': 0.00054858})


def third(i=101):
    return RP(i, attributes={'name': 'M'})


def reaction(i, lhs, rhs, a=1e-9, b=0., c=0., unit=None, **kw):
    at = {'arrh_a': a, 'arrh_b': b, 'arrh_c': c}
    at.update(kw)
    electron_collision = any(x.get_name() == 'e' for x in lhs)
    unit = unit or {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(lhs)]
    return Reaction(i, lhs, rhs, attributes=at, units={'arrh_a': unit, 'arrh_c': 'eV' if electron_collision else 'K'})


def argon(**kw):
    """e, Ar, Ar+, Ar*"""
    e, ar, ion, ex = electron(), rp(1, 'Ar'), rp(2, 'Ar+', **kw), rp(3, 'Ar*', stick_coef=1., ret_coefs={'Ar': 1.})
    rs = [reaction(1, [e, ar], [e, ar], 1e-7, elastic=True), reaction(2, [e, ar], [e, e, ion], 1e-8, .6, 15.8, el_en_loss=15.8),
          reaction(3, [e, ar], [e, ex], 1e-8, 0., 11.6, el_en_loss=11.6), reaction(4, [e, ex], [e, e, ion], 1e-7, 0., 4.2,
          el_en_loss=4.2), reaction(5, [ex, ex], [e, ar, ion], 1e-10)]
    return Chemistry(species=[e, ar, ion, ex], reactions=rs)


PARAMS = {'radius': .1, 'length': .1, 'pressure': 10., 'temp_gas': 300., 'power': (500, 500), 't_power': (0, 1),
          'feeds': {'Ar': 100.}, 't_end': 1e-3}


def expect(cond, what):
    if not cond:
        print('DEMONSTRATED:', what)
        sys.exit(1)
'''
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    assert not sh('git -C /repo status --short').stdout.strip(), '/repo is not clean'
    for path in sys.argv[1:]:
        d = runpy.run_path(path)
        out = os.path.join(ROOT, 'seeded', d['ID'])
        os.makedirs(out, exist_ok=True)
        for name, text in (('common.py', COMMON), ('demo.py', 'from common import *\n\n' + d['DEMO'].lstrip()), ('demo.sh', SH)):
            open(os.path.join(out, name), 'w').write(text)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['WHAT']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        ok = True
        clean = sh('bash {}/demo.sh'.format(out), cwd='/repo')
        if clean.returncode:
            print(d['ID'], 'demo fails on the clean tree:', clean.stdout[-600:], clean.stderr[-1500:])
            continue
        try:
            files = d['FILE'] if isinstance(d['FILE'], list) else [d['FILE']]
            for old, new in d['EDITS']:
                hit = [f for f in files if open('/repo/' + f).read().count(old)]
                assert len(hit) == 1 and open('/repo/' + hit[0]).read().count(old) == 1, (hit, old)
                s = open('/repo/' + hit[0]).read()
                open('/repo/' + hit[0], 'w').write(s.replace(old, new))
            open(os.path.join(out, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
            demo = sh('bash {}/demo.sh'.format(out), cwd='/repo')
            build = sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            base, got = json.load(open('/opt/vp/BASELINE.json')), json.load(open('/tmp/plant.json'))
            missing = sorted(set(base['stable']) - set(got['passed']))
            r = sh('bash run.sh {}'.format(d['PROPERTY']), cwd=ROOT)
            v = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION')]
            print('{}: demo {} build {} missing tests {} check {} ({} violation lines)'.format(
                d['ID'], demo.returncode, build.returncode, missing, r.returncode, len(v)))
            if demo.returncode == 0:
                print('   demo not failing', demo.stdout[-300:])
            else:
                print('   ', (demo.stdout + demo.stderr[-300:]).strip()[-300:])
            print('   ', '\n    '.join(r.stdout.strip().splitlines()[-4:])[:900])
        finally:
            sh('git -C /repo checkout -- .')
        sh('find {} -name __pycache__ -prune -exec rm -rf {{}} +'.format(out))


main()
