"""C27: generators produce what they promise, and the same for the same seed."""
import core, gens, random
import numpy as np
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx import generate as Gn
from pyzx.circuit import gates as G
from pyzx.utils import VertexType as VT, EdgeType as ET

def seed(rng):
    s = rng.randrange(2**32); random.seed(s); np.random.seed(s); return s

def graph_rec(g): r, ids = core.graph_plain(g); r.pop('ord', None); return r
def mat(m): return [[int(x) for x in r] for r in (m.data if hasattr(m, 'data') else m)]

def twice(c, rng, f, name, ev):
    """the same call with the same seed gives the same object"""
    s = seed(rng); ok, r = call(f)
    random.seed(s); np.random.seed(s); ok2, r2 = call(f); c.note(name)
    def show(r): return json.dumps(graph_rec(r) if hasattr(r, 'vertices') else core.circ_rec(r), sort_keys=True)
    if ok and ok2: ev.append(dict(a='seed', exc='', x=show(r), y=show(r2)))
    else: ev.append(dict(a='seed', exc=str(r if not ok else r2), x='', y=''))
    return ok, r

BACK = [None, None, 'simple', 'multigraph']
def backend(rng): return rng.choice(BACK)
def diagram_event(g, ni, no, asked, **kw):
    e = dict(a='diagram', exc='', g=graph_rec(g), ni=ni, no=no, nohad=False, clifford=False, tphase=False, qubits=[], backend=type(g).backend, asked=asked or 'simple'); e.update(kw); return e
def wires(g): return [int(g.qubit(v)) for v in g.inputs()]

def read(g):
    """the circuit that a generated diagram shows: one gate, or one pair of spiders, per row"""
    n = g.num_inputs(); circ = zx.Circuit(n); kinds = []; at = {q: v for q, v in zip(range(n), g.inputs())}
    rows = {}
    for v in g.vertices():
        if v not in g.inputs(): rows.setdefault(g.row(v), []).append(v)
    for r in sorted(rows):
        vs = sorted(rows[r])
        for v in vs:
            q = int(g.qubit(v)); e = g.edge(at[q], v)
            if not g.connected(at[q], v): raise BadObject('a wire is interrupted')
            if g.edge_type(e) == ET.HADAMARD: circ.gates.append(G.HAD(q))
            at[q] = v
        pair = [(v, w) for v in vs for w in vs if v < w and g.connected(v, w)]
        for v, w in pair:
            h = g.edge_type(g.edge(v, w)) == ET.HADAMARD; a, b = int(g.qubit(v)), int(g.qubit(w)); tv, tw = g.type(v), g.type(w)
            if tv == VT.X: (a, b), (tv, tw) = (b, a), (tw, tv)
            if (tv, tw) == (VT.Z, VT.X) and not h: circ.gates.append(G.CNOT(a, b)); kinds.append('CNOT')
            elif (tv, tw) == (VT.Z, VT.Z) and h: circ.gates.append(G.CZ(a, b)); kinds.append('CZ')
            elif (tv, tw) == (VT.X, VT.X) and h: circ.gates.append(G.XCX(a, b)); kinds.append('XCX')
            else: raise BadObject('no gate')
        for v in vs:
            t, p = g.type(v), g.phase(v)
            if t == VT.Z and p: circ.gates.append(G.ZPhase(int(g.qubit(v)), p))
            elif t == VT.X and p: circ.gates.append(G.XPhase(int(g.qubit(v)), p))
            if p: kinds.append({(VT.Z, F(1, 2)): 'S', (VT.Z, F(1, 4)): 'T', (VT.X, F(1, 2)): 'HSH'}.get((t, p), 'phase'))
    return circ, kinds

def spider_matrix(t, i, o, p):
    m = np.zeros((2 ** o, 2 ** i), dtype=complex)
    if t in ('Z', 'X', 'ZBox'):
        x = p if t == 'ZBox' else np.exp(1j * np.pi * float(p))
        m[0, 0] = 1; m[-1, -1] += x
        if t == 'X':
            h = np.array([[1, 1], [1, -1]]) / np.sqrt(2); I = np.array([[1]])
            for _ in range(i): I = np.kron(I, h)
            O = np.array([[1]])
            for _ in range(o): O = np.kron(O, h)
            m = O @ m @ I
    elif t == 'H':
        m[:] = 1; m[-1, -1] = np.exp(1j * np.pi * float(p))
    elif t == 'W':
        m[0, 0] = 1
        for k in range(o): m[1 << k, 1] = 1
    return m

def graphs(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = backend(rng); k = rng.choice(['identity', 'spider', 'spider', 'cnots', 'cliffordT', 'cliffordT', 'cliffords', 'cliffords']); ev = []; desc = k; sem = None
        try:
            if k == 'identity':
                q, d = rng.randint(0, 5), rng.choice([0, 1, 3])
                ok, g = call(Gn.identity, q, d, be); c.note(k); desc = 'identity(%d, %d, %s)' % (q, d, be)
                if ok:
                    ev.append(diagram_event(g, q, q, be, nohad=True, clifford=True, qubits=wires(g)))
                    if q: sem = (core.cobj(zx.Circuit(q)), [('identity', 'eq', export_result(core.gobj, g))])
                else: ev.append(dict(a='diagram', exc=g))
            elif k == 'spider':
                t = rng.choice(['Z', 'X', 'H', 'W', 'ZBox']); i, o = (1, rng.randint(0, 3)) if t == 'W' else (rng.randint(0, 3), rng.randint(0, 3))
                p = rng.choice([None] + [F(x, 4) for x in range(8)]); x = p
                if t == 'ZBox': p = rng.choice([None, 2, -1, 1j, 0.5, 1 + 1j])
                if t == 'W': p = None
                arg = t if rng.random() < .6 else {'Z': VT.Z, 'X': VT.X, 'H': VT.H_BOX, 'W': VT.W_OUTPUT, 'ZBox': VT.Z_BOX}[t]
                a = (arg, i, o) + (() if p is None else (p,)); desc = 'spider%r' % (a,)
                ok, g = call(Gn.spider, *a); c.note(k)
                if i + o > 0 or not ok:
                    val = p if p is not None else (1 if t == 'ZBox' else 0)
                    sem = (core.mobj(spider_matrix(t, i, o, val).tolist(), i, o), [(desc, 'eq', export_result(core.gobj, g) if ok else bad(g))])
            else:
                q = rng.randint(2, 5); d = rng.choice([0, 1, 2, 5, 12])
                if k == 'cnots':
                    desc = 'cnots(%d, %d)' % (q, d); ok, g = twice(c, rng, lambda: Gn.cnots(q, d, backend=be), k, ev)
                    kw = dict(clifford=True, nohad=True); rel = 'eq'
                elif k == 'cliffordT':
                    pr = rng.choice([{}, dict(p_t=.1), dict(p_t=0), dict(p_cnot=0), dict(p_hsh=0), dict(p_s=0, p_hsh=0), dict(p_t=1, p_s=0, p_hsh=0, p_cnot=0), dict(p_t=0, p_s=1, p_hsh=0, p_cnot=0), dict(p_t=0, p_s=0, p_hsh=1, p_cnot=0),
                                     dict(p_t=.7, p_s=.2, p_hsh=.1, p_cnot=0), dict(p_t=0, p_s=0, p_hsh=0, p_cnot=1), dict(p_t=.3, p_s=.3, p_hsh=.2, p_cnot=.2)])
                    if rng.random() < .3: x = [rng.random() for _ in range(4)]; s = sum(x); pr = dict(zip(('p_t', 'p_s', 'p_hsh', 'p_cnot'), [y / s for y in x]))
                    desc = 'cliffordT(%d, %d, %r)' % (q, d, pr); ok, g = twice(c, rng, lambda: Gn.cliffordT(q, d, backend=be, **pr), k, ev)
                    kw = dict(nohad=True, clifford=pr.get('p_t') == 0, tphase=True); rel = 'eq'
                else:
                    nh, tg = rng.random() < .5, rng.random() < .4
                    desc = 'cliffords(%d, %d, %s, %s)' % (q, d, nh, tg); ok, g = twice(c, rng, lambda: Gn.cliffords(q, d, no_hadamard=nh, t_gates=tg, backend=be), k, ev)
                    kw = dict(nohad=nh, clifford=not tg, tphase=True); rel = 'prop'
                if ok:
                    ev.append(diagram_event(g, q, q, be, qubits=wires(g), **kw))
                    circ, kinds = read(g)
                    if k != 'cliffords':
                        may = [n for n, a in (('T', 'p_t'), ('S', 'p_s'), ('HSH', 'p_hsh'), ('CNOT', 'p_cnot')) if k == 'cliffordT' and not pr.get(a) == 0] if k == 'cliffordT' else ['CNOT']
                        ev.append(dict(a='kinds', exc='', kinds=kinds, may=may, depth=d))
                    sem = (core.cobj(circ), [(desc, rel, export_result(core.gobj, g))])
            c.traces.append(dict(site=k, desc=desc, ev=ev, own=True))
            if sem: c.add(k, sem[0], sem[1], desc)
        except BadObject as x:
            c.traces.append(dict(site=k, desc=desc, ev=[dict(a='diagram', exc='the diagram is not a circuit: %s' % x)], own=True))
        except NotRepresentable: c.skipped += 1

def gates(circ): return core.circ_rec(circ)['gates']

def circuits(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.choice(['CNOT_HAD_PHASE_circuit', 'phase_poly', 'phase_poly_approximate', 'phase_poly_from_gadgets', 'phase_poly_from_gadgets', 'build_random_parity_map']); ev = []; q = rng.randint(2, 5)
        if k == 'CNOT_HAD_PHASE_circuit':
            had, t = rng.choice([(20, 20), (0, 20), (20, 0), (0, 0), (50, 50), (100, 0), (0, 100), (30, 60)]); cl = rng.random() < .5; d = rng.randint(0, 25)
            if had + t == 100 and rng.random() < .5: q = 1
            desc = '%s(%d, %d, %s, %s, %s)' % (k, q, d, had, t, cl); f = lambda: Gn.CNOT_HAD_PHASE_circuit(q, d, had / 100, t / 100, cl); e = dict(depth=d, had=had, t=t, clifford=cl)
        elif k == 'phase_poly':
            l, p = rng.randint(0, 4), rng.randint(0, 6); desc = '%s(%d, %d, %d)' % (k, q, l, p); f = lambda: Gn.phase_poly(q, l, p); e = dict(layers=l, per=p)
        elif k == 'phase_poly_approximate':
            l, p = rng.randint(1, 12), rng.choice([0, 3, 10]); desc = '%s(%d, %d, %d)' % (k, q, l, p); f = lambda: Gn.phase_poly_approximate(q, l, p); e = dict(cnots=l, phases=p)
        elif k == 'phase_poly_from_gadgets':
            if rng.random() < .1: q = rng.choice([27, 65]); l = rng.randint(0, 2)
            else: q = rng.randint(1, 4); l = rng.choice([0, 1, 2, 3, 5, 7, 8, 2 ** q - 1, 2 ** q, 2 ** q + 3])
            desc = '%s(%d, %d)' % (k, q, l); f = lambda: Gn.phase_poly_from_gadgets(q, l); e = dict(k=l)
        else:
            from pyzx.routing.parity_maps import CNOT_tracker
            l = rng.randint(0, 15); many = rng.choice([0, 1, 3]); cs = [CNOT_tracker(q) for _ in range(many)]; seed(rng)
            ok, m = call(Gn.build_random_parity_map, q, l, cs[0] if many == 1 and rng.random() < .5 else (cs or None)); c.note(k)
            e = dict(a=k, exc='' if ok else m, n=q, k=l, mat=mat(m) if ok else [], circs=[[['cn', g.control, g.target] for g in x.gates] for x in cs])
            if many or not ok: c.traces.append(dict(site=k, desc='%d qubits, %d gates' % (q, l), ev=[e], own=True))
            continue
        ok, r = twice(c, rng, f, k, ev)
        e.update(a=k, exc='' if ok else r, n=q, gates=gates(r) if ok else [])
        if k in ('phase_poly', 'phase_poly_approximate'): e['mat'] = mat(r.matrix) if ok else []
        ev.append(e)
        c.traces.append(dict(site=k, desc=desc, ev=ev, own=True))

def identities(c):
    """circuits that are promised to be the identity"""
    if c.shard: return
    rng = c.rng; L = [('circuit_identity_phasepoly', ()), ('circuit_identity_two_qubit1', ()), ('circuit_identity_two_qubit2', ())]
    L += [('circuit_identity_commuting_controls', (F(a, 16), F(b, 16))) for a, b in [(1, 1), (4, 8), (3, 5), (7, 12), (0, 3), (2, 30)]]
    for nm, a in L:
        ok, r = call(getattr(Gn, nm), *a); c.note(nm)
        c.add(nm, core.cobj(zx.Circuit(r.qubits if ok else 1)), [(nm, 'prop', export_result(core.cobj, r) if ok else bad(r)), ('diagram', 'prop', export_result(lambda: core.gobj(r.to_graph())) if ok else bad(r))], '%s%r' % (nm, a))

def main(chk):
    q = chk.tier == 'quick'
    t = chk.gen('checks.c27', [('graphs', dict(n=90 if q else 2500)), ('circuits', dict(n=80 if q else 2000)), ('identities', {})], 10 if q else 150)
    chk.validate([x for x in t if 'own' not in x])
    chk.validate_with('GenTrace.tla', 'GenTrace.cfg', [x for x in t if 'own' in x])
    return chk.finish('a case is non-trivial when it is not identical to another')
