"""Morris trajectories: one factor at a time, by the elementary step, on the grid."""
import math

import numpy as np

RULE = ('random dimensions (2 to 40), seeds on the grid passed as lists, tuples, arrays or read-only arrays, drawn by the '
        'seed methods or by hand, and whole trajectories consumed lazily or at once, several interleaved; the recorded '
        'sequence of (factor, step, vector) is judged; also random vectors off the grid by as little as 1e-4; '
        'non-trivial: dimension at least 3')
QUICK, THOROUGH = 600, 60000
MIN_EVENTS = {'trajectory vectors': 2108, 'trajectories complete': 256, 'off-grid seeds refused': 150,
              'seeds rounded to the grid': 657, 'interleaved trajectories': 60, 'vectors kept': 2108}

GRID = [(2 * k + 1) / 20 for k in range(10)]


def method():
    from pygmo_fwork.optichem.morris import MorrisMethod
    return MorrisMethod(None, None)


def on_grid(v):
    return any(abs(v - g) < 1e-9 for g in GRID)


def judge(m, seed, steps):
    """steps: recorded (i, delta, vector copied at once, vector object) of one trajectory."""
    n = len(seed)
    m.check(len(steps) == n, 'number of steps of a trajectory', (len(steps), n))
    m.check(sorted(int(s[0]) for s in steps) == list(range(n)), 'every factor changed exactly once',
            [int(s[0]) for s in steps])
    prev = list(seed)
    for i, delta, x, obj in steps:
        m.event('trajectory vectors')
        m.check(abs(abs(float(delta)) - .5) < 1e-12, 'size of the elementary step', repr(delta))
        m.check(len(x) == n, 'dimension of the vector')
        m.check(all(on_grid(v) for v in x), 'vector off the grid', x)
        for k in range(n):
            want = prev[k] + (float(delta) if k == i else 0.)
            m.check(abs(x[k] - want) < 1e-9, 'a step changes its factor only, by its delta', (prev, x, int(i), float(delta)))
        prev = x
    for i, delta, x, obj in steps:
        m.check(list(obj) == x, 'vector changed after it was yielded', (x, list(obj)))
        m.event('vectors kept')


def case(m, rng, i):
    from pygmo_fwork.optichem.exceptions import MorrisInputsError
    mm = method()
    m.check(len(mm.grid) == 10 and all(on_grid(g) for g in mm.grid), 'grid', list(mm.grid))
    n = rng.choice([2, 2, 3, 4, 5, 8, 13, 40])
    if n > 2:
        m.signature(n, i)
    # seeds
    kind = rng.randrange(3)
    if kind == 0:
        seed = [float(v) for v in mm._get_seed_x_random(n)]
        m.check(len(seed) == n and all(on_grid(v) for v in seed), 'random seed off the grid', seed)
    elif kind == 1:
        cont = [rng.choice([rng.random(), rng.uniform(-.5, 1.5), rng.choice(GRID), rng.choice(GRID) + 1e-12])
                for _ in range(n)]
        passed = rng.choice([list, tuple, np.array])(cont)
        seed = [float(v) for v in mm._get_seed_x(passed)]
        m.check(len(seed) == n and all(on_grid(v) for v in seed), 'seed off the grid', seed)
        for c, s in zip(cont, seed):
            m.event('seeds rounded to the grid')
            m.check(abs(c - s) <= min(abs(c - g) for g in GRID) + 1e-9, 'seed is not the closest grid point', (c, s))
        m.check(list(passed) == cont, 'seed method changed its argument')
    else:
        seed = [float(rng.choice(mm.grid)) for _ in range(n)]
    passed = rng.choice([list, tuple, np.array])(seed)
    if isinstance(passed, np.ndarray) and rng.random() < .5:
        passed.flags.writeable = False
    m.note(seed_x=seed)
    # consumption: lazily with other trajectories and random numbers in between, or at once
    if rng.random() < .3:
        m.event('interleaved trajectories')
        other = [float(rng.choice(mm.grid)) for _ in range(3)]
        a, b, rec_a, rec_b = mm._trajectory(passed), mm._trajectory(other), [], []
        live = [(a, rec_a), (b, rec_b)]
        while live:
            g, rec = rng.choice(live)
            try:
                k, d, x = next(g)
                rec.append((k, d, [float(v) for v in x], x))
            except StopIteration:
                live.remove((g, rec))
            if rng.random() < .2:
                np.random.seed(rng.randrange(9999))
        judge(m, other, rec_b)
        judge(m, seed, rec_a)
        m.event('trajectories complete', 2)
    else:
        rec = [(k, d, [float(v) for v in x], x) for k, d, x in mm._trajectory(passed)]
        judge(m, seed, rec)
        m.event('trajectories complete')
    m.check([float(v) for v in passed] == seed, 'trajectory changed the seed passed in')
    # refusals
    bad = list(seed)
    bad[rng.randrange(n)] = rng.choice([0., 1., .5, rng.choice(GRID) + rng.choice([-1, 1]) * 1e-4, -.05, 1.05,
                                        float('nan'), rng.random() * .0499])
    m.raises(MorrisInputsError, 'seed off the grid refused', lambda: list(mm._trajectory(np.array(bad))))
    m.event('off-grid seeds refused')
    m.raises(MorrisInputsError, 'fewer than two factors refused', lambda: list(mm._trajectory(seed[:rng.randrange(2)])))
    m.sample('{} -> {}'.format(seed, 'ok'))


def directed(m):
    """All factors, signs and orders do occur."""
    mm = method()
    orders, signs = set(), set()
    for k in range(400):
        rec = [(int(a), float(d), tuple(x)) for a, d, x in mm._trajectory([GRID[k % 10], .05, .95])]
        orders.add(tuple(r[0] for r in rec))
        signs.update((r[0], r[1]) for r in rec)
    m.check(len(orders) == 6, 'order of the factors is random', orders)
    m.check({(0, .5), (0, -.5)} <= signs and (1, .5) in signs and (2, -.5) in signs, 'both directions are used', signs)
