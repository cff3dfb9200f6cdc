"""C18: questions about coupling graphs against module Arch."""
import core, tlc, random, copy
import numpy as np
from framework import *
import pyzx as zx
from pyzx.routing import architecture as A
from pyzx.routing.architecture import Architecture, create_architecture

class Arch:
    """an architecture with its vertices renamed to 0..n-1"""
    def __init__(self, a):
        self.a = a; vs = sorted(a.graph.vertices()); self.ix = {v: i for i, v in enumerate(vs)}; self.vs = vs
    def rec(self):
        a = self.a; ix = self.ix
        return {'n': len(self.vs), 'ed': [[ix[x] for x in a.graph.edge_st(e)] for e in a.graph.edges()], 'map': [ix[a.qubit2vertex(q)] for q in range(len(self.vs))]}

def event(a, f, **k):
    ok, r = call(f)
    e = {'a': a, 'exc': '' if ok else r, **k}
    if ok: e.update(r)
    return e

def walk(it):
    """the two halves of a tree generator; some = False when it refuses"""
    down, up = [], []
    try:
        for x in it:
            if x is None: break
            down.append([int(x[0]), int(x[1])])
        for x in it:
            if x is None: break
            up.append([int(x[0]), int(x[1])])
        if next(it, 'end') != 'end': raise RuntimeError('walk goes on after its end')
    except ValueError as e:
        if 'connected' not in str(e): raise
        return {'some': False}
    return {'some': True, 'down': down, 'up': up}

def ask(rng, A, light=False, order=True):
    a, ix = A.a, A.ix; n = len(A.vs); ev = []
    ev.append(event('map', lambda: {'v2q': [a.vertex2qubit(v) for v in A.vs]}))
    ev.append(event('neighbours', lambda: {'nb': [sorted(a.get_neighboring_qubits(q)) for q in range(n)], 'vnb': [sorted(ix[w] for w in a.get_neighboring_vertices(v)) for v in A.vs]}))
    ev.append(event('arities', lambda: {'ar': [[int(x), int(y)] for x, y in a.arities()]}))
    if order: ev.append(event('reduce_order', lambda: {'ord': list(a.reduce_order)}))
    some = lambda S: sorted(rng.sample(S, rng.randint(0, len(S))))
    subs = [list(range(n))] + [some(list(range(n))) for _ in range(1 if light else 3)]
    for s in subs:
        s2 = list(s); rng.shuffle(s2)
        ev.append(event('non_cutting', lambda: {'ret': list(a.non_cutting_vertices(s2))}, sub=s))
    v2q = {v: a.vertex2qubit(v) for v in A.vs}
    if n <= 9 or not light:
        for s in subs[:3]:
            S = [A.vs[i] for i in s]; rng.shuffle(S); rec = [v for v in S if rng.random() < .4]; up = rng.random() < .5
            ev.append(event('distances', lambda: {'d': [[ix[u], ix[v], d, [[ix[x], ix[y]] for x, y in p]] for (u, v), (d, p) in a.floyd_warshall(S, upper=up, rec_vertices=rec).items()]},
                            sub=[ix[v] for v in S], upper=up, rec=[ix[v] for v in rec], v2q=[v2q[v] for v in A.vs]))
    for _ in range(2 if light else 4):
        s, t = rng.randrange(n), rng.randrange(n); use = sorted(set(some(list(range(n))) + [s, t])) if rng.random() < .5 else None
        def sp():
            p = a.shortest_path(s, t, use); return {'some': False} if p is None else {'some': True, 'p': [ix[v] for v in p]}
        ev.append(event('shortest_path', sp, s=s, t=t, use=use if use is not None else list(range(n))))
    for _ in range(2 if light else 4):
        up = rng.random() < .5; r = rng.randrange(n); pool = list(range(r, n)) if up else list(range(0, r + 1))
        terms = rng.sample(pool, rng.randint(0, min(5, len(pool))))
        if rng.random() < .5 and r not in terms: terms.append(r)
        ev.append(event('steiner_tree', lambda: walk(a.steiner_tree(r, terms, up)), root=r, terms=terms, upper=up, rec=[-1], use=[]))
        use = sorted(set(some(list(range(n))) + [r])); rec = some(use) if rng.random() < .5 else []
        terms2 = rng.sample(use, rng.randint(1, min(5, len(use))))
        if r not in terms2: terms2.append(r)
        ev.append(event('rec_steiner_tree', lambda: walk(a.rec_steiner_tree(r, terms2, use, rec, upper=up)), root=r, terms=terms2, upper=up, rec=rec, use=use))
    return ev

def put(c, site, A, ev, desc=''):
    for e in ev: c.note(e['a'])
    try: rec = A.rec()
    except Exception as e: rec = None; ev = [{'a': 'map', 'exc': 'qubit map raised %s' % type(e).__name__}]
    c.traces.append({'site': site, 'arch': rec or {'n': 0, 'ed': [], 'map': []}, 'ev': ev, 'desc': '%s %s' % (desc, rec)})

def from_graph(rng, n, ed, place=True):
    """an architecture on a given coupling graph, made in one of the possible ways"""
    k = rng.randrange(4); kw = {}
    if place and rng.random() < .3: kw['qubit_map'] = rng.sample(range(n), n)
    if k == 0:
        m = np.zeros((n, n))
        for u, v in ed:
            m[u, v] = 1
            if rng.random() < .8: m[v, u] = 1
            elif rng.random() < .5: m[u, v] = 0; m[v, u] = 1
        return Architecture('x', coupling_matrix=m, **kw)
    g = zx.Graph(backend=rng.choice(['simple', 'multigraph', None]))
    if k == 1:
        off = rng.randint(1, 2); g.add_vertices(n + off); kill = sorted(rng.sample(range(n + off), off)); g.remove_vertices(kill)
        vs = list(g.vertices())
        if 'qubit_map' in kw: kw['qubit_map'] = [vs[i] for i in kw['qubit_map']]
    else: vs = list(g.add_vertices(n))
    es = [(vs[u], vs[v]) if rng.random() < .5 else (vs[v], vs[u]) for u, v in ed]; rng.shuffle(es)
    g.add_edges(es)
    return Architecture('x', coupling_graph=g, **kw)

def rgraph(rng, n):
    ed = []
    for v in range(1, n): ed.append((rng.randrange(max(0, v - rng.randint(1, 4)), v), v))
    for _ in range(rng.randint(0, n)):
        u, v = sorted(rng.sample(range(n), 2)) if n > 1 else (0, 0)
        if u != v and (u, v) not in ed: ed.append((u, v))
    p = list(range(n)); rng.shuffle(p) if rng.random() < .5 else None
    return [(p[u], p[v]) for u, v in ed]

def sweep(c, n=40, big=9):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.randint(1, big); ed = rgraph(rng, k)
        X = Arch(from_graph(rng, k, ed)); put(c, 'random', X, ask(rng, X))
        if rng.random() < .3:    # the transpose leaves the original alone
            a = X.a; before = {v: a.vertex2qubit(v) for v in X.vs}
            t = Arch(a.transpose())
            put(c, 'transpose', t, ask(rng, t, light=True)); put(c, 'transposed', X, ask(rng, X, light=True))

def replay(c, gs=()):
    rng = c.rng
    for i in range(c.shard, len(gs), c.nshards):
        if not c.more(): break
        g = gs[i]; X = Arch(from_graph(rng, g['n'], [tuple(e) for e in g['ed']])); put(c, 'enumerated', X, ask(rng, X, light=g['n'] > 4))

def builtin(c):
    rng = c.rng
    J = []
    for name in A.architectures:
        for n in ([1, 2, 3, 4, 5, 7, 9, 16] if name in A.dynamic_size_architectures else [None]):
            if name == A.SQUARE and n not in (1, 4, 9, 16): continue
            if name == A.CIRCLE and n < 3: continue
            J.append((name, n))
    size = {A.IBM_QX2: 5, A.IBM_QX4: 5, A.IBM_QX3: 16, A.IBM_QX5: 16, A.IBM_Q20_TOKYO: 20, A.RIGETTI_8Q_AGAVE: 8, A.RIGETTI_16Q_ASPEN: 16, A.RIGETTI_19Q_ACORN: 20, A.REC_ARCH: 9,
            A.SYCAMORE_LIKE: 20, A.IBMQ_POUGHKEEPSIE: 20, A.IBMQ_BOEBLINGEN: 20, A.IBMQ_SINGAPORE: 20, A.GOOGLE_SYCAMORE: 53, A.IBM_ROCHESTER: 53}
    for name, n in J[c.shard::c.nshards]:
        kw = {} if n is None else {'n_qubits': n}
        dens = None
        if name == A.DENSITY: dens = kw['density_prob'] = rng.choice([.1, .3, .6, 1])
        if n is None or n > 1: kw['backend'] = rng.choice(['simple', 'multigraph', None]) 
        ok, a = call(lambda: create_architecture(name, **kw))
        if not ok: c.traces.append({'site': 'builtin', 'arch': {'n': 0, 'ed': [], 'map': []}, 'ev': [{'a': 'topology', 'exc': a}], 'desc': name}); continue
        X = Arch(a); size_ = size.get(name, n)
        top = {A.LINE: 'line', A.CIRCLE: 'circle', A.FULLY_CONNECTED: 'full', A.SQUARE: 'square', A.DENSITY: 'density'}.get(name, 'device')
        ev = [{'a': 'topology', 'exc': '', 'top': top, 'name': name, 'size': size_, 'w': int(round((n or 0) ** .5)), 'ones': [], 'edges': int(dens * n * (n - 1) / 2) if dens else 0,
               'ham': name in A.hamiltonian_path_architectures}]
        put(c, 'builtin', X, ev + (ask(rng, X, light=True) if a.n_qubits < 30 else []), name)
    for _ in range(3):
        n = rng.randint(2, 8); d = rng.choice([.2, .5, .9])
        for f, ham in ((A.create_dynamic_density_tree_architecture, False), (A.create_dynamic_density_hamiltonian_architecture, True), (A.create_dynamic_density_architecture, False)):
            ok, a = call(lambda: f(n, density_prob=d))
            if not ok: c.traces.append({'site': 'density', 'arch': {'n': 0, 'ed': [], 'map': []}, 'ev': [{'a': 'topology', 'exc': a}], 'desc': f.__name__}); continue
            X = Arch(a); put(c, 'density', X, [{'a': 'topology', 'exc': '', 'top': 'other' if f is A.create_dynamic_density_architecture else 'density', 'size': n, 'w': 0, 'ones': [], 'edges': int(d * n * (n - 1) / 2), 'ham': ham}] + ask(rng, X, light=True), f.__name__)
        m = np.zeros((n, n)); ones = []
        for u, v in rgraph(rng, n):
            for x, y in [(u, v), (v, u)][rng.choice([slice(0, 1), slice(0, 2), slice(1, 2)])]: m[x, y] = 1; ones.append([x, y])
        X = Arch(Architecture('m', coupling_matrix=m)); put(c, 'matrix', X, [{'a': 'topology', 'exc': '', 'top': 'matrix', 'size': n, 'w': 0, 'ones': ones, 'edges': 0, 'ham': False}])

def main(chk):
    q = chk.tier == 'quick'; gs = []
    for k in (2, 3, 4) if q else (2, 3, 4, 5):
        gs += [x for x in tlc.printed(chk.model('ArchGen.tla', 'ArchGen%d.cfg' % k, workers=4)) if 'ed' in x]
    chk.extra['coupling_graphs_enumerated_by_TLC'] = len(gs)
    reps = 3 if q else 8
    cases = chk.gen('checks.c18', [('sweep', dict(n=20 if q else 400, big=9 if q else 12)), ('replay', dict(gs=gs * reps)), ('builtin', dict())], 25 if q else 240)
    chk.validate_with('ArchTrace.tla', 'ArchTrace.cfg', cases, shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
