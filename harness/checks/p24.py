"""Graph searches find what they say: widest paths, shortest paths and maximal flows."""
import itertools
import math

RULE = ('random directed graphs (up to 9 nodes, any density, ties, self loops, unreachable parts), built and rebuilt in '
        'random order with any edge attribute and weighting function; every path and score to every target against '
        'all-pairs iteration, every maximal flow against the smallest of all cuts; then graphs without weights, bad '
        'weights and functions; non-trivial: at least 4 nodes, a path of 3 edges and an unreachable node')
QUICK, THOROUGH = 3000, 60000
MIN_EVENTS = {'widest paths': 20000, 'shortest paths': 20000, 'flows': 5000, 'unreachable': 5000, 'refused': 6000,
              'paths over several edges': 10000, 'flows over several paths': 500}
INF = math.inf


def close(a, b, tol=1e-9):
    return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b))


def check_path(m, path, source, target, edges, reachable, what):
    m.check(path[0] == source, what + ': path does not start at its source', path)
    if not reachable:
        m.event('unreachable')
        m.check(path[-1] is None, what + ': path to a node which cannot be reached', path)
        return
    m.check(path[-1] == target and None not in path, what + ': path does not end at the target', path)
    m.check(len(set(path)) == len(path), what + ': path with a loop', path)
    m.check(all(e in edges for e in zip(path, path[1:])), what + ': path over edges which are not there', path)
    if len(path) > 2:
        m.event('paths over several edges')


def min_cut(nodes, cap, s, t):
    others = [n for n in nodes if n not in (s, t)]
    best = INF
    for k in range(len(others) + 1):
        for sub in itertools.combinations(others, k):
            side = set(sub) | {s}
            best = min(best, sum(c for (u, v), c in cap.items() if u in side and v not in side))
    return best


def case(m, rng, i):
    from pygmo_fwork.optichem.graph import Graph
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
    nodes = rng.sample(['A', 'Ar', 'Ar+', 'O2', 'O-', 'e', 'N2(v=1)', 'H', 'He*', 'M', 'x', 'y'], n)
    dens = rng.choice([.15, .3, .5, .9])
    layer = {x: rng.randint(0, 3) for x in nodes} if rng.random() < .4 else None
    attr = rng.choice(['weight', 'weight', 'flow'])
    ints = rng.random() < .4
    edges = {}
    for u in nodes:
        for v in nodes:
            if layer and layer[v] - layer[u] not in (1, 2):
                if rng.random() > .05:
                    continue
            elif layer and rng.random() < .5:       # layered: many partly overlapping paths from the first to the last
                edges[u, v] = rng.choice([1, 2, 3, 5]) if ints else 10 ** rng.uniform(-1, 1)
                continue
            if rng.random() < dens and (u != v or rng.random() < .1):
                edges[u, v] = rng.choice([1, 2, 3, 5]) if ints else 10 ** rng.uniform(-6, 6)
    m.note(edges=[(u, v, w) for (u, v), w in edges.items()])
    g = Graph()
    order = list(edges)
    rng.shuffle(order)
    for u, v in order + rng.sample(order, len(order) // 3):
        g.add_edge(u, v)
    for (u, v) in order:
        if rng.random() < .3:
            g.update_edge_attributes(u, v, **{attr: 1e9})
        g.update_edge_attributes(u, v, **{attr: edges[u, v]})
        if rng.random() < .3:
            g.update_edge_attributes(u, v, other=0.)
    used = {x for e in edges for x in e}
    m.check(set(g.get_nodes()) == used and set(g.get_edges()) == set(edges), 'nodes and edges of the graph')
    m.check(all(g.has_edge(u, v) == ((u, v) in edges) for u in nodes for v in nodes), 'has_edge')
    m.check(all(g.get_edge_attributes(u, v)[attr] == w for (u, v), w in edges.items()), 'attributes of edges')
    for x in used:
        m.check(set(g.successors[x]) == {v for u, v in edges if u == x} and
                set(g.predecessors[x]) == {u for u, v in edges if v == x}, 'neighbours of a node')
    if not used:
        return
    fns = [lambda t: g.find_max_bottleneck_paths(t, edge_attribute=attr),
           lambda t: g.find_shortest_paths(t, edge_attribute=attr),
           lambda t: g.get_max_flow(sorted(used)[0], t, edge_attribute=attr)]
    for fn in fns:
        m.event('refused')
        m.raises(AssertionError, 'search without weights', fn, sorted(used)[0])
    g.weights_distributed = True
    for kw in ({'weighting_func': lambda x: x}, {'inverse': lambda x: x}):
        m.event('refused', 2)
        m.raises(AssertionError, 'weighting function without its inverse', g.find_shortest_paths, sorted(used)[0],
                 edge_attribute=attr, **kw)
        m.raises(AssertionError, 'weighting function without its inverse', g.find_max_bottleneck_paths,
                 sorted(used)[0], edge_attribute=attr, **kw)
    e0 = rng.choice(order)
    for bad in (0, -1., -1e-30):
        m.event('refused')
        m.raises(AssertionError, 'weight which is not positive', g.update_edge_attributes, *e0, weight=bad)
    for bad in (lambda t: g.find_shortest_paths(t, attr, weighting_func=lambda x: -x, inverse=lambda x: -x),
                lambda t: g.find_max_bottleneck_paths(t, attr, weighting_func=lambda x: -x, inverse=lambda x: -x)):
        if e0[0] != e0[1]:
            m.raises(AssertionError, 'negative weights', bad, e0[1])
    f, inv = rng.choice([(None, None), (lambda x: 1 / x, lambda x: 1 / x if x else INF), (lambda x: 2 * x, lambda x: x / 2),
                         (lambda x: x * x, lambda x: x ** .5)])
    kw = {'edge_attribute': attr} if attr != 'weight' or rng.random() < .5 else {}
    if f:
        kw.update(weighting_func=f, inverse=inv)
    ff, iv = f or (lambda x: x), inv or (lambda x: x)
    w = {e: ff(x) for e, x in edges.items()}
    us = sorted(used)
    # all pairs by iteration
    dist = {(u, v): 0. if u == v else w.get((u, v), INF) for u in us for v in us}
    width = {(u, v): INF if u == v else w.get((u, v), 0.) for u in us for v in us}
    for k in us:
        for u in us:
            for v in us:
                dist[u, v] = min(dist[u, v], dist[u, k] + dist[k, v])
                width[u, v] = max(width[u, v], min(width[u, k], width[k, v]))
    longest, unreach = 0, False
    for t in us:
        paths, widths = g.find_max_bottleneck_paths(t, **kw)
        m.check(set(paths) == set(widths) == used, 'widest paths: sources')
        for s in us:
            m.event('widest paths')
            reach = width[s, t] > 0
            unreach |= not reach
            check_path(m, paths[s], s, t, edges, reach, 'widest path')
            if reach or f is None:
                exp = iv(width[s, t])
                m.check(close(widths[s], exp), 'width of the widest path', lambda: (s, t, widths[s], exp))
            if reach and s != t:
                own = min(w[e] for e in zip(paths[s], paths[s][1:]))
                m.check(close(own, width[s, t]), 'widest path is not the widest', lambda: (s, t, paths[s], own, width[s, t]))
        paths, lengths = g.find_shortest_paths(t, **kw)
        m.check(set(paths) == set(lengths) == used, 'shortest paths: sources')
        for s in us:
            m.event('shortest paths')
            reach = dist[s, t] < INF
            check_path(m, paths[s], s, t, edges, reach, 'shortest path')
            if s != t:
                exp = iv(dist[s, t])
                m.check(close(lengths[s], exp), 'length of the shortest path', lambda: (s, t, lengths[s], exp))
            if reach and s != t:
                own = sum(w[e] for e in zip(paths[s], paths[s][1:]))
                longest = max(longest, len(paths[s]) - 1)
                m.check(close(own, dist[s, t]), 'shortest path is not the shortest',
                        lambda: (s, t, paths[s], own, dist[s, t]))
    pairs = [(s, t) for s in us for t in us if s != t]
    for s, t in pairs if len(us) < 6 else rng.sample(pairs, 8):
        m.event('flows')
        exp = min_cut(us, w, s, t)
        if exp == 0 and f is not None:      # the inverse need not take a zero
            continue
        if not close(exp, width[s, t]):
            m.event('flows over several paths')
        got = g.get_max_flow(s, t, **kw)
        m.check(close(got, iv(exp), 1e-7), 'maximal flow', lambda: (s, t, got, iv(exp)))
    m.check(all(g.get_edge_attributes(u, v)[attr] == x for (u, v), x in edges.items()), 'searches changed the graph')
    if len(us) >= 4 and longest >= 3 and unreach:
        m.signature(sorted((u, v, x) for (u, v), x in edges.items()))
        m.sample({'edges': [(u, v, x) for (u, v), x in edges.items()]})
