"""C16: CNOT routing against modules F2 and RouteTrace."""
import core, tlc, random, copy, io, contextlib
import numpy as np
from framework import *
import pyzx as zx
from pyzx.linalg import Mat2
from pyzx.circuit import Circuit
from pyzx.routing import architecture as A
from pyzx.routing.cnot_mapper import ElimMode, CostMetric, FitnessFunction, gauss, permuted_gauss, sequential_gauss
from pyzx.routing.steiner import steiner_gauss, rec_steiner_gauss, steiner_reduce_column
from pyzx.routing.parity_maps import CNOT_tracker
from pyzx.routing.machine_learning import GeneticAlgorithm, ParticleSwarmOptimization
from checks.c15 import rows, cn, Rec, rmat, invertible
from checks.c18 import from_graph as any_placement, rgraph

def from_graph(rng, n, ed):
    """recursive Steiner elimination is made for placements that number the graph in post-order of a depth-first search (the default)"""
    a = any_placement(rng, n, ed, place=False)
    if rng.random() < .4:
        g = a.graph; seen = []; order = []
        def dfs(v):
            seen.append(v); nb = list(g.neighbors(v)); rng.shuffle(nb)
            for w in nb:
                if w not in seen: dfs(w)
            order.append(v)
        dfs(rng.choice(list(g.vertices()))); a = A.Architecture('x', coupling_graph=g.clone() if hasattr(g, 'clone') else g, qubit_map=order)
    return a
def qedges(a):
    return [[a.vertex2qubit(x) for x in a.graph.edge_st(e)] for e in a.graph.edges()]
def event(a, f, **k):
    ok, r = call(f)
    e = {'a': a, 'exc': '' if ok else r, 'refused': not ok and 'not connected' in r, 'mayrefuse': False, **k}
    if ok: e.update(r)
    return e
def case(c, site, a, ev, desc=''):
    for e in ev: c.note(e['a'])
    try: ed = qedges(a)
    except Exception as x: ed = []; ev = [{'a': 'edges', 'exc': type(x).__name__}]
    c.traces.append({'site': site, 'n': a.n_qubits, 'ed': ed, 'ev': ev, 'desc': '%s %s' % (desc, ed)})
def M(m): return Mat2(copy.deepcopy(m))

class Dual:
    """a tracker of row operations"""
    def __init__(self): self.ops = []
    def row_add(self, a, b): self.ops.append([int(a), int(b)])

def elim(rng, arch, m, alg):
    n = len(m); full = rng.random() < .6; useX, useY = rng.random() < .7, rng.random() < .8
    extra = {'blocksize': rng.randint(1, n + 1)} if alg == 'gauss' and rng.random() < .5 else {}
    perm = rng.sample(range(n), n) if alg in ('gauss', 'steiner') and rng.random() < .25 else None
    m0 = [[m[i][j] for j in perm] for i in perm] if perm else m
    def f():
        x, y, K = Dual(), CNOT_tracker(n), M(m); kw = dict(extra)
        if useX: kw['x'] = x
        if useY: kw['y'] = y
        rk = None
        if alg == 'gauss': rk = gauss(rng.choice([ElimMode.GAUSS_MODE, None]), K, architecture=arch if rng.random() < .5 else None, permutation=perm, full_reduce=full, **kw)
        elif alg == 'steiner': rk = gauss(ElimMode.STEINER_MODE, K, architecture=arch, permutation=perm, full_reduce=full, **kw)
        elif alg == 'noarch':
            with contextlib.redirect_stdout(io.StringIO()): rk = gauss(ElimMode.STEINER_MODE, K, full_reduce=full, **kw)
        elif alg == 'rec':
            rec_steiner_gauss(K, arch, full_reduce=full, **kw); rk = n
        else: rk = steiner_gauss(K, arch, full_reduce=full, **kw)
        return dict(m1=rows(K), xops=x.ops, ycn=cn(y.gates), ymat=rows(y.matrix), rank=int(rk))
    return event('elim', f, m0=m0, full=full, hasx=useX, hasy=useY, restrict=alg not in ('gauss', 'noarch'), mayrefuse=alg != 'gauss', alg=alg, perm=perm or [])

def L(p): return [int(x) for x in p]
def permuted(rng, arch, m):
    n = len(m); mode = rng.choice([ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE]); row, col = rng.random() < .7, rng.random() < .7
    full = rng.random() < .85; kw = dict(population_size=rng.randint(4, 9), n_iterations=rng.randint(0, 3))
    np.random.seed(rng.randrange(2**32)); via = rng.random() < .4; own = rng.random() < .5 or via
    def f():
        K = M(m); y = CNOT_tracker(n) if own else None
        if via:
            g = {ElimMode.STEINER_MODE: ElimMode.GENETIC_STEINER_MODE, ElimMode.GAUSS_MODE: ElimMode.GENETIC_GAUSS_MODE}[mode]
            rk = gauss(g, K, architecture=arch, y=y, full_reduce=full, row=row, col=col, **kw); t = y
        else:
            p, t, rk = permuted_gauss(K, mode, arch, row=row, col=col, full_reduce=full, y=y, **kw)
            if row and L(p) != L(t.row_perm) or col and L(p) != L(t.col_perm): return dict(exc='returned permutation is not the one of the circuit')
        return dict(ycn=cn(t.gates), ymat=rows(t.matrix), rows=L(t.row_perm), cols=L(t.col_perm), rank=int(rk))
    return event('permuted', f, m=m, row=row, col=col, full=full, restrict=mode == ElimMode.STEINER_MODE)

def sequence(rng, arch, n, pso=False):
    k = rng.randint(1, 3); ms = [invertible(rng, n) for _ in range(k)]
    if pso: mode = rng.choice([ElimMode.PSO_STEINER_MODE, ElimMode.PSO_GAUSS_MODE])
    else: mode = rng.choice([ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE, ElimMode.GENETIC_STEINER_MODE, ElimMode.GENETIC_GAUSS_MODE, None])
    pin, pout = (True, True) if pso and rng.random() < .8 else (rng.random() < .5, rng.random() < .5)
    np.random.seed(rng.randrange(2**32))
    kw = dict(population_size=rng.randint(4, 6), n_iterations=rng.randint(0, 2)) if mode not in (None, ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE) else {}
    if pso: kw.update(n_steps=rng.randint(1, 6), swarm_size=rng.randint(2, 4))
    def f():
        cs, ps, sc = sequential_gauss([M(m) for m in ms], mode=mode, architecture=arch, input_perm=pin, output_perm=pout, **kw)
        return dict(circs=[cn(x.gates) for x in cs], perms=[L(p) for p in ps], score=int(sc))
    return event('sequence', f, ms=ms, pin=pin, pout=pout, restrict=mode is not None and 'steiner' in mode.value)

def cost(rng):
    n = rng.randint(2, 6)
    def f():
        t = CNOT_tracker(n); g = [rng.sample(range(n), 2) for _ in range(rng.randint(0, 12))]
        for a, b in g: t.add_gate("CNOT", a, b)
        me = t.gather_metrics()
        if me != {'n_cnots': t.count_cnots(), 'depth': t.cnot_depth()}: return dict(exc='metrics disagree')
        return dict(n=n, gates=g, n_cnots=t.count_cnots(), depth=t.cnot_depth())
    return event('cost', f)

def fitness(rng, arch, m):
    n = len(m); metric = rng.choice(list(CostMetric)); row, col = rng.random() < .7, rng.random() < .7
    mode = rng.choice([ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE]); full = rng.random() < .7; p = rng.sample(range(n), n)
    def f():
        K = M(m); F = FitnessFunction(metric, K, mode, arch, row=row, col=col, full_reduce=full); v = F(p)
        if rows(K) != m: return dict(exc='the matrix was changed')
        y = CNOT_tracker(n); id_ = list(range(n))
        gauss(mode, Mat2([[m[i][j] for j in (p if col else id_)] for i in (p if row else id_)]), architecture=arch, y=y, full_reduce=full)
        return dict(m=m, ret=int(v), metric=metric.value, gates=cn(y.gates))
    return event('fitness', f)

def search(rng):
    n = rng.randint(2, 6); mx = rng.random() < .3; lo = rng.choice([0, 0, -4]); sp = rng.random() < .3
    w = [[rng.randint(lo, 9) * (not sp or rng.random() < .3) for _ in range(n + 2)] for _ in range(n + 2)]; evals = []
    np.random.seed(rng.randrange(2**32)); ga = rng.random() < .7; m = n
    def fit(p):
        v = sum(w[i][int(x)] for i, x in enumerate(p)); evals.append([L(p), v]); return v
    def f():
        if ga:
            g = GeneticAlgorithm(rng.randint(4, 10), .8, .5, fit, maximize=mx)
            init = None; 
            if rng.random() < .4: init = list(range(n + rng.randint(0, 2))); rng.shuffle(init) if len(init) == n else None
            r = g.find_optimum(n, rng.randint(0, 5), initial_order=init, n_child=rng.choice([None, 2, 6]))
            if rng.random() < .4 and (init is None or len(init) == n): r = g.find_optimum(n, rng.randint(0, 3), continued=True)
            if init is not None and len(init) > n:
                if L(r)[n:] != init[n:]: return dict(exc='the fixed part of the order changed')
                return dict(ret=L(r), evals=evals, max=mx, n=len(init), m=n)
        else:
            def step(p):
                v = fit(p); q = np.array(rng.sample(list(L(p)), n)) if rng.random() < .7 else np.array(L(p))
                return q, L(p), v
            s = ParticleSwarmOptimization(rng.randint(1, 5), step, .4, .3, .5, maximize=mx, n_threads=1)
            r = s.find_optimum(n, rng.randint(1, 6))
        return dict(ret=L(r), evals=evals, max=mx, n=n, m=n)
    return event('search', f)

def column(rng, arch):
    n = arch.n_qubits; up = rng.random() < .5; adj = {q: set() for q in range(n)}
    for x, y in qedges(arch): adj[x].add(y); adj[y].add(x)
    root = rng.randrange(n); use = {root}; k = rng.randint(1, n)
    while len(use) < k: use.add(rng.choice(sorted({y for x in use for y in adj[x]} - use)))
    use = sorted(use); col = [rng.randint(0, 1) for _ in range(n)]
    if not up: col[root] = 1
    elif not any(col[q] for q in use): col[rng.choice(use)] = 1
    nodes = [q for q in use if col[q] or q == root]; rng.shuffle(nodes); c0 = list(col)
    return event('column', lambda: dict(ops=[L(o) for o in steiner_reduce_column(arch, col, root, nodes, list(use), list(use), up)]), col=c0, root=root, use=use)

def qasm(rng):
    n = rng.choice([2, 3, 5, 12, 30, 45])
    def f():
        t = CNOT_tracker(n); g = [rng.sample(range(n), 2) for _ in range(rng.randint(0, 8))]
        for a, b in g: t.row_add(a, b)
        t.row_perm = np.array(rng.sample(range(n), n))
        b = Circuit.from_qasm(t.to_qasm())
        return dict(n=n, gates=g, back=cn(b.gates), nback=b.qubits)
    return event('qasm', f)

def ask(rng, a, m, deep=False):
    ev = [elim(rng, a, m, alg) for alg in ('gauss', 'steiner', 'rec', 'plain')]
    if rng.random() < .2: ev.append(elim(rng, a, m, 'noarch'))
    if len(m) >= 2:
        ev.append(fitness(rng, a, m))
        if deep or rng.random() < .15: ev += [permuted(rng, a, m), sequence(rng, a, len(m))]
    ev.append(column(rng, a))
    return ev

def sweep(c, n=40, big=7):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.randint(1, big); a = from_graph(rng, k, rgraph(rng, k)); m = invertible(rng, k)
        case(c, 'random', a, ask(rng, a, m, deep=i % 3 == 0))
        if rng.random() < .5:
            r, q = rng.randint(1, big), rng.randint(1, big); a = from_graph(rng, r, rgraph(rng, r)); m = rmat(rng, r, q)
            case(c, 'rectangular', a, [elim(rng, a, m, 'plain')] + ([elim(rng, a, m, 'gauss')] if r == q else []))
        k = rng.randint(1, big); b = any_placement(rng, k, rgraph(rng, k)); case(c, 'placement', b, [elim(rng, b, invertible(rng, k), x) for x in ('plain', 'rec', 'steiner')] + [column(rng, b)])
        case(c, 'cost', a, [cost(rng), search(rng), search(rng), qasm(rng)])

def builtin(c, n=6, deep=False):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name = rng.choice([A.LINE, A.CIRCLE, A.SQUARE, A.FULLY_CONNECTED, A.DENSITY, A.IBM_QX2, A.IBM_QX4, A.RIGETTI_8Q_AGAVE, A.REC_ARCH] + ([A.IBM_QX5, A.IBM_Q20_TOKYO, A.SYCAMORE_LIKE, A.RIGETTI_16Q_ASPEN, A.IBMQ_SINGAPORE] if deep or i == 0 else []))
        kw = {'n_qubits': rng.choice([4, 9]) if name == A.SQUARE else rng.randint(3, 7)} if name in A.dynamic_size_architectures else {}
        if name == A.DENSITY: kw['density_prob'] = rng.choice([.1, .4, .7]); np.random.seed(rng.randrange(2**32))
        a = A.create_architecture(name, **kw); k = a.n_qubits
        case(c, 'builtin', a, [elim(rng, a, invertible(rng, k), alg) for alg in ('steiner', 'rec', 'plain')] + [column(rng, a)], name)

def pso(c, n=2):
    import pyzx.routing.machine_learning as ml
    ml.cpu_count = lambda: 1      # workers of the harness cannot have children
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.randint(2, 5); a = from_graph(rng, k, rgraph(rng, k)); case(c, 'swarm', a, [sequence(rng, a, k, pso=True)])

def replay(c, ms=()):
    rng = c.rng
    for i in range(c.shard, len(ms), c.nshards):
        if not c.more(): break
        x = ms[i]; a = from_graph(rng, x['n'], [(u - 1, v - 1) for u, v in x['ed']]); case(c, 'enumerated', a, ask(rng, a, x['m']))

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in (4, 5): chk.model('SteinerGen.tla', 'SteinerGen%d.cfg' % k, workers=2)
    for mod, cfg in (('RouteGen', 'RouteGen2'), ('RouteGen', 'RouteGen3')) + (() if q else (('RouteGen4m', 'RouteGen4m'),)):
        ms += [x for x in tlc.printed(chk.model(mod + '.tla', cfg + '.cfg', workers=1)) if 'ed' in x]
    chk.extra['routings_enumerated_by_TLC'] = len(ms)
    random.Random(chk.seed).shuffle(ms)
    cases = chk.gen('checks.c16', [('sweep', dict(n=40 if q else 300, big=7 if q else 9)), ('replay', dict(ms=ms)), ('builtin', dict(n=6 if q else 60, deep=not q)), ('pso', dict(n=6 if q else 40))], 25 if q else 300)
    chk.validate_with('RouteTrace.tla', 'RouteTrace.cfg', cases, shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
