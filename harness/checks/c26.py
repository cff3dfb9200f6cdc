"""C26: reported statistics are the quantities they name."""
import re, core, gens, random
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx.circuit import gates as G
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx import simplify as S, optimize as O, extract as E
from pyzx.routing import parity_maps as PM, cnot_mapper as CM
from pyzx.routing import architecture as A

def qubits(g):
    if isinstance(g, G.ParityPhase): return sorted({int(t) + 1 for t in g.targets})
    return [int(getattr(g, a)) + 1 for a in ('ctrl1', 'ctrl2', 'control', 'target') if hasattr(g, a)]

def grec(g):
    ph = core.phase_idx(F(g.phase) % 2) if isinstance(getattr(g, 'phase', None), (int, F)) else -1
    return dict(nm=type(g).__name__, q=qubits(g), ph=ph)

def gl(gs): return [grec(g) for g in gs]

MORE = [lambda r, q: G.CCZ(*r.sample(range(q), 3)) if q > 2 else G.HAD(0), lambda r, q: G.Tofolli(*r.sample(range(q), 3)) if q > 2 else G.T(0),
        lambda r, q: G.CSWAP(*r.sample(range(q), 3)) if q > 2 else G.S(0), lambda r, q: G.YPhase(r.randrange(q), phase=gens.phase(r, 'T')), lambda r, q: G.Y(r.randrange(q)),
        lambda r, q: G.ParityPhase(gens.phase(r, 'T'), *r.sample(range(q), r.randint(1, q))), lambda r, q: G.U2(r.randrange(q), gens.phase(r, 'T'), gens.phase(r, 'T')),
        lambda r, q: G.U3(r.randrange(q), gens.phase(r, 'T'), gens.phase(r, 'T'), gens.phase(r, 'cliff'))] + \
       [lambda r, q, n=n: two(r, q, n) for n in ('CY', 'CSX', 'CHAD', 'XCX', 'SWAP', 'CZ')] + [lambda r, q, n=n: rot2(r, q, n) for n in ('CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ', 'CU3', 'CU')]
def two(r, q, n): return getattr(G, n)(*r.sample(range(q), 2)) if q > 1 else G.HAD(0)
def rot2(r, q, n):
    if q < 2: return G.SX(0)
    a, b = r.sample(range(q), 2); p = lambda: gens.phase(r, r.choice(['T', 'cliff']))
    if n == 'CU3': return G.CU3(a, b, p(), p(), p())
    if n == 'CU': return G.CU(a, b, p(), p(), p(), p())
    return getattr(G, n)(a, b, p())

def circuit(rng):
    q = gens.size(rng, 1, 5, 12)
    c = gens.rand_circuit(rng, q, gens.size(rng, 0, 25, 80), rng.choice(['cliff', 'T', 'cnotT', 'zx', 'opt']), rng.choice(['T', 'cliff', 'any']))
    if rng.random() < .6:
        for _ in range(rng.randint(1, 8)): c.gates.insert(rng.randint(0, len(c.gates)), rng.choice(MORE)(rng, q))
    return c

def number(c, f, what, gs, basic, n, *a):
    ok, r = call(f, *a); c.note(what)
    return dict(a='number', what=what, exc='' if ok else r, r=int(r) if ok else 0, gates=gl(gs), basic=gl(basic), n=n)

def of_circuits(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ = circuit(rng); gs = circ.gates
        basic = [b for g in gs for b in g.to_basic_gates()]
        desc = gens.circ_desc(circ); ev = []
        ev += [number(c, circ.tcount, 'tcount', gs, basic, circ.qubits), number(c, circ.twoqubitcount, 'twoqubit', gs, basic, circ.qubits),
               number(c, circ.depth, 'depth', gs, basic, circ.qubits), number(c, S.tcount, 'tcount', gs, basic, circ.qubits, circ)]
        ev += [number(c, E.get_optimize_value, 'basic depth', gs, basic, circ.qubits, circ, True, True), number(c, E.get_optimize_value, 'basic twoqubit', gs, basic, circ.qubits, circ, False, True)]
        m = circ
        if rng.random() < .3:
            m = circ.copy(); b = m.copy()
            for _ in range(rng.randint(1, 3)): m.gates.insert(rng.randint(0, len(m.gates)), G.Measurement(rng.randrange(m.qubits), 0))
        for wd in (False, True):
            if wd and m is not circ: continue
            ok, d = call(m.stats_dict, wd); ok2, t = call(m.stats, wd); c.note('stats')
            keys = ('qubits', 'gates', 'tcount', 'clifford', 'twoqubit', 'cnot', 'had', 'measurement', 'other', 'depth', 'depth_cz')
            e = dict(a='stats', exc='' if ok and ok2 else str(d if not ok else t), n=m.qubits, gates=gl(m.gates), basic=gl(basic), wd=wd, d={}, text=[])
            if ok and ok2:
                e['d'] = {k: int(d[k]) for k in keys}; s = t.replace('2-qubit', 'two-qubit').replace(str(d['name']), '', 1) if d['name'] else t.replace('2-qubit', 'two-qubit')
                e['text'] = [int(x) for x in re.findall(r'\d+', s)]
            ev.append(e)
        b = zx.Circuit(circ.qubits); b.gates = [x for x in basic if type(x).__name__ in ('ZPhase', 'Z', 'S', 'T', 'XPhase', 'NOT', 'SX', 'HAD', 'CNOT', 'CZ') and not (hasattr(x, 'phase') and not 0 < x.phase < 2)]
        ok, r = call(O.stats, b); c.note('optimizer')
        ev.append(dict(a='optimizer', exc='' if ok else r, r=list(r) if ok else [], gates=gl(b.gates)))
        ok, r = call(lambda: circ.to_graph().qubit_count())
        ev.append(dict(a='number', what='qubits', exc='' if ok else r, r=int(r) if ok else 0, gates=[], basic=[], n=circ.qubits))
        c.traces.append(dict(site='circuit', desc=desc, ev=ev))

def of_cnots(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 6); t = PM.CNOT_tracker(q); ev = []
        for _ in range(rng.randint(0, 20) if q > 1 else 0):
            a, b = rng.sample(range(q), 2); k = rng.random()
            if k < .5: t.row_add(a, b)
            elif k < .8: t.col_add(a, b)
            else: t.add_gate(G.CNOT(a, b))
        ev += [number(c, t.count_cnots, 'cnots', t.gates, [], q), number(c, t.cnot_depth, 'cnot depth', t.gates, [], q),
               number(c, lambda: t.gather_metrics()['n_cnots'], 'cnots', t.gates, [], q), number(c, lambda: t.gather_metrics()['depth'], 'cnot depth', t.gates, [], q)]
        if q > 1:
            arch = rng.choice([None, A.create_architecture(A.LINE, n_qubits=q), A.create_architecture(A.FULLY_CONNECTED, n_qubits=q)])
            mode = CM.ElimMode.GAUSS_MODE if arch is None else CM.ElimMode.STEINER_MODE
            import numpy as np
            m = t.matrix.copy(); perm = np.array(rng.sample(range(q), q)); row, col = rng.random() < .5, rng.random() < .5
            for met, what in ((CM.CostMetric.COMBINED, 'combined'), (CM.CostMetric.DEPTH, 'cnot depth'), (CM.CostMetric.COUNT, 'cnots')):
                f = CM.FitnessFunction(met, m.copy(), mode, arch, row=row, col=col)
                rp, cp = (perm if row else range(q)), (perm if col else range(q))
                own = PM.CNOT_tracker(q); mm = zx.linalg.Mat2([[m.data[x][y] for y in cp] for x in rp]) if hasattr(zx, 'linalg') else None
                CM.gauss(mode, mm, architecture=arch, y=own, full_reduce=True)
                ev.append(number(c, f, what, own.gates, [], q, perm))
        c.traces.append(dict(site='CNOT circuit', desc=gens.circ_desc(t), ev=ev))

def of_diagrams(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rng.choice([None, None, 'multigraph'])
        g = gens.rand_diagram(rng, rng.randint(0, 10), rng.randint(0, 3), rng.randint(0, 3), rng.choice(['T', 'cliff', 'any']), backend=be, hbox=rng.choice([0, 0, .2]))
        if be: 
            g.set_auto_simplify(False); vs = [v for v in g.vertices() if g.type(v) == VT.Z]
            for _ in range(rng.randint(0, 4)):
                if len(vs) > 1: g.add_edge(tuple(rng.sample(vs, 2)), rng.choice([ET.SIMPLE, ET.HADAMARD]))
        if rng.random() < .3 and g.num_vertices() > 2:
            g.remove_vertices([v for v in rng.sample(list(g.vertices()), 1) if g.type(v) != VT.BOUNDARY and not any(g.type(w) == VT.BOUNDARY for w in g.neighbors(v))])
        for v in list(g.vertices()):
            if rng.random() < .2: g.set_row(v, rng.randint(0, 20))
        ok, t = call(g.stats); c.note('diagram'); ev = []
        r, ids = core.graph_plain(g)
        e = dict(a='diagram', exc='' if ok else t, g=r, degrees=[], nv=g.num_vertices(), ne=g.num_edges(), ni=g.num_inputs(), no=g.num_outputs(), depth=0, tc=0, rows=[int(g.row(v)) for v in g.vertices()])
        if ok: e['degrees'] = [[int(a), int(b)] for a, b in re.findall(r'^(\d+): (\d+)$', t, re.M)]
        for k, f in (('depth', g.depth), ('tc', lambda: S.tcount(g))):
            ok, x = call(f)
            if ok: e[k] = int(x)
            else: e['exc'] = x
        ev.append(e)
        if not be and not any(g.type(v) == VT.H_BOX for v in g.vertices()):
            for nm in rng.sample(['id_simp', 'spider_simp', 'lcomp_simp', 'pivot_simp'], 2):
                h = g.copy()
                if nm in ('lcomp_simp', 'pivot_simp'): S.to_gh(h); S.spider_simp(h, quiet=True)
                st = S.Stats(); b = h.num_vertices(); ok, r = call(getattr(S, nm), h, quiet=True, stats=st); c.note('rewrites')
                ev.append(dict(a='rewrites', nm=nm, exc='' if ok else r, r=r if ok else 0, count=st.num_rewrites.get(nm, 0), before=b, after=h.num_vertices()))
        c.traces.append(dict(site='diagram', desc=gens.dump(g), ev=ev))

def main(chk):
    q = chk.tier == 'quick'
    t = chk.gen('checks.c26', [('of_circuits', dict(n=90 if q else 2500)), ('of_cnots', dict(n=50 if q else 1000)), ('of_diagrams', dict(n=90 if q else 2000))], 10 if q else 150)
    chk.validate_with('StatsTrace.tla', 'StatsTrace.cfg', t)
    return chk.finish('a case is non-trivial when it is not identical to another')
