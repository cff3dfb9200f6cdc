"""C17: phase-polynomial routing against modules PhasePoly and PhasePolyTrace."""
import core, tlc, random, copy, io, contextlib
from fractions import Fraction as F
import numpy as np
import gens
from framework import *
import pyzx as zx
from pyzx.linalg import Mat2
from pyzx.circuit import Circuit
from pyzx.circuit.gates import CNOT, ZPhase, Z, S, T
from pyzx.routing import architecture as A
from pyzx.routing.cnot_mapper import ElimMode
from pyzx.routing.parity_maps import CNOT_tracker, Parity
from pyzx.routing.phase_poly import PhasePoly, RoutingMethod, RootHeuristic, SplitHeuristic, route_phase_poly, inverse_hack, partition2mat2
from checks.c15 import rows, rmat, invertible
from checks.c16 import qedges, event, case, L
from checks.c18 import from_graph as any_placement, rgraph
from checks.c16 import from_graph as dfs_placement

N = core.N
def ang(p):
    k = F(p) * N / 2
    if k.denominator != 1: raise NotRepresentable('angle')
    return int(k) % N
def ops_of(gates):
    r = []
    for g in gates:
        if g.name in ('CNOT', 'CX'): r.append(['cn', int(g.control), int(g.target)])
        elif isinstance(g, ZPhase): r.append(['z', int(g.target), ang(g.phase)])
        else: r.append(['?', g.name])
    return r
def prow(p): return [int(b) for b in p]

def circuit(rng, n, k, rotations=.4):
    c = Circuit(n)
    for _ in range(k):
        if n < 2 or rng.random() < rotations:
            q = rng.randrange(n); x = rng.random()
            if x < .2: c.add_gate(rng.choice([T(q), S(q), Z(q), S(q, adjoint=True), T(q, adjoint=True)]))
            else: c.add_gate('ZPhase', q, phase=gens.angle(rng, rng.choice(['T', 'cliff', 'cliff'])))
        else: c.add_gate('CNOT', *rng.sample(range(n), 2))
    return c

def from_ops(n, ops, full):
    c = Circuit(n)
    for o in ops:
        if o[0] == 'cn': c.add_gate('CNOT', o[1], o[2])
        else: c.add_gate('ZPhase', o[1], phase=F(2 * o[2], full))
    return c

def read(rng, c):
    n = c.qubits; init = rng.sample(range(n), n) if rng.random() < .4 else None; fin = rng.sample(range(n), n) if rng.random() < .4 else None
    def f():
        kw = {}
        if init is not None: kw['initial_qubit_placement'] = init
        if fin is not None: kw['final_qubit_placement'] = fin
        p = PhasePoly.fromCircuit(c, **kw)
        if p.n_qubits != n or set(p.all_parities) != set(p.zphases): return dict(exc='size or parities of the polynomial')
        return dict(phases=[[prow(k), ang(v)] for k, v in p.zphases.items()], out=[prow(x) for x in p.out_par])
    # init[j] is the position at which qubit j of the circuit finds its input
    id_ = list(range(n)); inv = [init.index(j) for j in id_] if init else id_
    return event('read', f, n=n, ops=ops_of(c.gates), init=inv, final=fin or id_)

BASIC = [ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE]
GEN = [ElimMode.GENETIC_STEINER_MODE, ElimMode.GENETIC_GAUSS_MODE]
def small(mode): return dict(population_size=4, n_iterations=1) if mode in GEN else {}
def deco(rng, c, ops):
    """a circuit to route, given as such or as a polynomial"""
    return c if rng.random() < .5 else PhasePoly.fromCircuit(c)

def route(rng, arch, c, how):
    n = c.qubits; ops = ops_of(c.gates); id_ = list(range(n)); mode = rng.choice(BASIC + BASIC + (GEN if n > 1 else []))
    np.random.seed(rng.randrange(2**32)); kw = small(mode) if how in ('MATROID', 'matroid') else {}; desc = [how, mode.name]; full = True; restrict = mode in (ElimMode.STEINER_MODE, ElimMode.GENETIC_STEINER_MODE); mayperm = False
    rh, sh = rng.choice(list(RootHeuristic)), rng.choice(list(SplitHeuristic))
    if how in ('ari', 'MEIJER'):
        for o in ('zeroes_rec', 'neighbour_path', 'tie_break'):
            if rng.random() < .4: kw[o] = True
    if how in ('MATROID', 'matroid'):
        for o in ('optimize_parity_order', 'optimize_partition_order', 'iterative_placement', 'parity_permutation', 'iterative_initial_placement'):
            if rng.random() < .3: kw[o] = rng.random() < .5
        if how == 'MATROID': kw.update(input_perm=False, output_perm=False)
        else:
            kw.update(input_perm=rng.random() < .6, output_perm=rng.random() < .6); mayperm = mode in GEN
    if how in ('ari', 'rec') and rng.random() < .25: kw['full'] = full = False
    if how == 'rec' and rng.random() < .25: kw['phase_qubit'] = rng.randrange(n)
    a = arch
    if how in ('ari', 'rec', 'gray') and rng.random() < .15: a = None; restrict = False
    if how in ('GRAY', 'rec', 'GRAY_MEIJER'): kw.update(root_heuristic=rh, split_heuristic=sh)
    def f():
        with contextlib.redirect_stdout(io.StringIO()):
            pin, pout = id_, id_; before = None
            if how in ('MATROID', 'MEIJER', 'GRAY', 'GRAY_MEIJER'):
                p = deco(rng, c, ops); d = dict(p.zphases) if isinstance(p, PhasePoly) else None
                r = route_phase_poly(p, a, RoutingMethod[how], mode, **kw)
                if ops_of(c.gates) != ops: return dict(exc='the circuit was changed')
            else:
                p = PhasePoly.fromCircuit(c)
                r, pin, pout = {'matroid': p.matroid_synth, 'gray': p.gray_synth, 'rec': p.rec_gray_synth, 'ari': p.Ariannes_synth}[how](mode, a, **kw)
            if not isinstance(r, Circuit): return dict(exc='not a circuit')
            t = isinstance(r, CNOT_tracker)
            return dict(res=ops_of(r.gates), pin=L(pin), pout=L(pout), nq=r.qubits, tracked=t, ymat=rows(r.matrix) if t else [])
    return event('route', f, n=n, ops=ops, full=full, restrict=restrict, mayperm=mayperm, mayrefuse=False), desc + sorted(str(x) for x in kw.items())

def partition(rng, c):
    skip = rng.random() < .7; opt = rng.random() < .5; n = c.qubits
    def f():
        p = PhasePoly.fromCircuit(c)
        b = p.partition(skip_output_parities=skip, optimize_parity_order=opt)
        return dict(parities=[prow(x) for x in p.all_parities], out=[prow(x) for x in p.out_par], blocks=[[prow(x) for x in y] for y in b])
    return event('partition', f, n=n, skip=skip)

def order(rng, c):
    def f():
        p = PhasePoly.fromCircuit(c); bs = p.partition() + [p.out_par]; r = p._order_partitions(bs)
        k = [[prow(x) for x in y] for y in bs]; g = [[prow(x) for x in y] for y in r]; got = []; used = set()
        for y in g:
            i = next((i for i, x in enumerate(k) if x == y and i not in used), -1); used.add(i); got.append(i)
        if got[-1] != len(bs) - 1 and g[-1] != k[-1]: return dict(exc='the last block moved')
        return dict(n=len(bs), got=got)
    return event('order', f)

def extend(rng):
    n = rng.randint(1, 6); m = rmat(rng, rng.randint(1, n), n) if rng.random() < .5 else invertible(rng, n)[:rng.randint(1, n)]
    def f():
        K = Mat2(copy.deepcopy(m)); r = inverse_hack(K)
        if rows(K) != m: return dict(exc='the matrix was changed')
        return dict(none=True, ext=[], inv=[]) if r is None else dict(none=False, ext=rows(r[0]), inv=rows(r[1]))
    return event('extend', f, m=m)

def heuristics(rng, arch, c):
    from pyzx.routing import phase_poly as P
    n = c.qubits; p = PhasePoly.fromCircuit(c); ps = [prow(x) for x in p.all_parities] or [[1] * n]; m = [[x[i] for x in ps] for i in range(n)]
    cols = sorted(rng.sample(range(len(ps)), rng.randint(1, len(ps)))); col = rng.choice(cols); qs = [i for i in range(n) if m[i][col]]; some = sorted(rng.sample(range(n), rng.randint(1, n)))
    np.random.seed(rng.randrange(2**32))
    def f():
        K = Mat2(copy.deepcopy(m)); ask = lambda h, r: [L(x) for x in h.to_function()(arch, K, cols, list(qs), col, r)]
        e = dict(n=n, ops=[ask(RootHeuristic.RECURSIVE, r) for r in qs], col=[m[i][col] for i in range(n)], roots=qs, some=some)
        e.update(best=ask(RootHeuristic.EXHAUSTIVE, None), rand=ask(RootHeuristic.RANDOM, None), arity=ask(RootHeuristic.ARITY, None))
        s = lambda h: L(h.to_function()(arch, K, cols, list(some)))
        e.update(srand=s(SplitHeuristic.RANDOM), sarity=s(SplitHeuristic.ARITY), scount=s(SplitHeuristic.COUNT))
        if rows(K) != m: return dict(exc='the matrix was changed')
        return e
    return event('heur', f)

def best(rng, arch, c):
    def f():
        g = lambda h: int(route_phase_poly(c, arch, RoutingMethod[h]).twoqubitcount())
        return dict(both=g('GRAY_MEIJER'), one=g('GRAY'), other=g('MEIJER'), dflt=int(route_phase_poly(c, arch).twoqubitcount()))
    return event('best', f)

HOW = ['MATROID', 'MEIJER', 'GRAY', 'GRAY_MEIJER', 'matroid', 'gray', 'rec', 'ari']
def ask(c, site, rng, a, circ, hows):
    for h in hows:
        e, d = route(rng, a, circ, h); case(c, site + ':' + h, a, [e], '%s %s %s' % (d, e['ops'], L(list(map(a.vertex2qubit, a.vertices)))))
    case(c, site, a, [read(rng, circ), partition(rng, circ), order(rng, circ), extend(rng), heuristics(rng, a, circ), best(rng, a, circ)], str(ops_of(circ.gates)))

def arch(rng, k):
    f = dfs_placement if rng.random() < .7 else any_placement
    while True:
        a = f(rng, k, rgraph(rng, k))
        ed = qedges(a)
        if k < 2 or all(any((u == q and v > q) or (v == q and u > q) for u, v in ed) for q in range(k - 1)): return a      # C16: elimination is defined for these placements

def sweep(c, n=40, big=6, hows=HOW):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.randint(1, big); ask(c, 'random', rng, arch(rng, k), circuit(rng, k, rng.choice([0, 3, 8, 15, 30]) if i % 4 else rng.randint(20, 60)), hows if i % 3 == 0 else rng.sample(hows, 3))

def builtin(c, n=4):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name = rng.choice([A.LINE, A.CIRCLE, A.SQUARE, A.FULLY_CONNECTED, A.IBM_QX2, A.IBM_QX4, A.RIGETTI_8Q_AGAVE])
        a = A.create_architecture(name, **({'n_qubits': rng.choice([4, 9]) if name == A.SQUARE else rng.randint(3, 7)} if name in A.dynamic_size_architectures else {}))
        ask(c, 'builtin', rng, a, circuit(rng, a.n_qubits, rng.choice([5, 12, 30])), ['MEIJER', 'GRAY', 'GRAY_MEIJER', 'ari', 'rec'] + (['matroid'] if a.n_qubits < 7 else []))

def replay(c, ms=()):
    rng = c.rng
    for i in range(c.shard, len(ms), c.nshards):
        if not c.more(): break
        x = ms[i]; a = arch(rng, x['n']); ask(c, 'enumerated', rng, a, from_ops(x['n'], x['ops'], 4 if x['n'] == 2 else 8), [HOW[(i // c.nshards + j) % 8] for j in (0, 3)])

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in (2, 3): ms += [x for x in tlc.printed(chk.model('PhasePolyGen.tla', 'PhasePolyGen%d.cfg' % k, workers=1)) if 'ops' in x]
    chk.extra['circuits_enumerated_by_TLC'] = len(ms)
    random.Random(chk.seed).shuffle(ms)
    cases = chk.gen('checks.c17', [('sweep', dict(n=25 if q else 400, big=5 if q else 7)), ('replay', dict(ms=ms)), ('builtin', dict(n=2 if q else 30))], 12 if q else 250)
    chk.validate_with('PhasePolyTrace.tla', 'PhasePolyTrace.cfg', cases, shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
