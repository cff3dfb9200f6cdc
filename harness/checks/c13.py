"""C13: tensors and matrices are the linear map."""
from fractions import Fraction as F
import sys, types, itertools, copy
import numpy as np
import core, gens
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx import tensor as T
from checks.c07 import tenobj
from checks.c12 import diagram, UNRED

def ring_phases(g):
    """bring the phases of a diagram to multiples of pi/4, so that every entry of its tensor lies in Z[w,1/2]"""
    for v in g.vertices():
        if g.type(v) in (VT.Z, VT.X, VT.H_BOX): g.set_phase(v, F(round(g.phase(v) * 4), 4) if not hasattr(g.phase(v), 'terms') else 0)
    return g
def rand(rng, be=None, io=3):
    g = ring_phases(diagram(rng, rng.randint(0, io), rng.randint(0, io), be or rng.choice(['simple', 'simple', 'multigraph'])))
    r = rng.random()
    if r < .3:      # any arrangement in rows
        k = rng.randint(1, 4)
        for v in g.vertices(): g.set_row(v, rng.randint(-1, k))
    elif r < .4:
        for v in g.vertices(): g.set_row(v, 0)
    elif r < .5:    # positions that were never set
        h = zx.Graph(type(g).backend)
        if type(g).backend == 'multigraph': h.set_auto_simplify(False)
        m = dict(zip(g.vertices(), h.add_vertices(g.num_vertices())))
        for v in g.vertices():
            h.set_type(m[v], g.type(v)); h.set_phase(m[v], g.phase(v))
            for k in g.vdata_keys(v): h.set_vdata(m[v], k, g.vdata(v, k))
        for e in g.edges(): s, t = g.edge_st(e); h.add_edge((m[s], m[t]), g.edge_type(e))
        h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs())); h.scalar = g.scalar.copy()
        g = h
    return g

def scale(t):
    """the power of two that brings the largest entry near one"""
    m = np.abs(np.asarray(t)).max() if np.asarray(t).size else 0
    k = 0 if not m or not np.isfinite(m) else int(round(np.log2(m)))
    return k if 2 < k <= 40 or -10 <= k < -2 else 0      # below that, rounding errors may be all there is
def halved(A, k):
    """the diagram A divided by 2^k"""
    return dict(A, g=dict(A['g'], sc=dict(A['g']['sc'], p2=A['g']['sc']['p2'] - 2 * k)))

def tens(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = rand(rng)
        try:
            A = core.gobj(g); a, b = len(g.inputs()), len(g.outputs()); ev = []; desc = '%s rows=%s %s' % (type(g).backend, [g.row(v) for v in g.vertices()], gens.dump(g))
            def evt(nm, rel, f):
                ok, r = call(f); c.note(nm)
                if not ok: ev.append((nm, rel, bad(r))); return
                try:
                    k = scale(r)
                    if k and rel == 'eq': c.add('tensorfy', halved(A, k), [(nm + ' / 2^%d' % k, rel, export_result(tenobj, np.asarray(r) / 2.0 ** k, a, b, strict=False))], desc)
                    else: ev.append((nm, rel, export_result(tenobj, np.asarray(r) / 2.0 ** k, a, b, strict=False)))
                except NotRepresentable: c.skipped += 1
            evt('tensorfy', 'eq', lambda: T.tensorfy(g))
            evt('to_tensor', 'eq', lambda: g.to_tensor())
            if i % 3 == 0: evt('to_tensor(preserve_scalar=False)', 'prop', lambda: g.to_tensor(False))
            def shape(m):
                if m.shape != (2 ** b, 2 ** a): raise AssertionError('matrix has shape %s' % (m.shape,))
                return m
            evt('to_matrix', 'eq', lambda: shape(g.to_matrix()))
            evt('to_matrix(preserve_scalar=False)', 'prop', lambda: shape(g.to_matrix(preserve_scalar=False)))
            evt('tensor_to_matrix', 'eq', lambda: shape(T.tensor_to_matrix(T.tensorfy(g), a, b)))
            if g.scalar.is_zero: ev = [e for e in ev if e[1] != 'prop']
            c.add('tensorfy', A, ev, desc); c.add('tensorfy', A, [('diagram untouched', 'same', core.gobj(g))], desc)
            # the map without the scalar is the map of the same diagram with scalar 1
            if not g.scalar.is_zero:
                h = g.clone(); h.scalar = type(g.scalar)()
                ev = []; A = core.gobj(h); evt('tensor of the diagram without its scalar', 'eq', lambda: g.to_tensor(False) if max(g.num_vertices(), 0) < 6 else h.to_tensor())
                c.add('tensorfy', core.gobj(h), ev, desc)
        except NotRepresentable: c.skipped += 1

def algebra(c, n=40):
    """operations on the tensors of circuits"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 3)
        def one():
            return gens.rand_circuit(rng, q, rng.randint(0, 8), rng.choice(['T', 'cliff', 'opt']), 'T') if rng.random() < .5 else ring_phases(diagram(rng, q, q))
        x, y = one(), one(); o = lambda z: core.cobj(z) if hasattr(z, 'gates') else core.gobj(z)
        gr = lambda z: z.to_graph() if hasattr(z, 'gates') else z
        try:
            X, Y = core.gobj(gr(x)), core.gobj(gr(y)); ev = []; desc = ' || '.join(gens.dump(gr(z)) for z in (x, y))
            def evt(start, nm, rel, f):
                ok, r = call(f); c.note(nm)
                try: c.add('tensor algebra', start, [(nm, rel, export_result(tenobj, r, q, q, strict=False) if ok else bad(r))], desc)
                except NotRepresentable: c.skipped += 1
            evt(core.then(X, Y), 'compose_tensors', 'eq', lambda: T.compose_tensors(x.to_tensor(), y.to_tensor()))
            evt(core.adj(X), 'adjoint', 'eq', lambda: T.adjoint(x.to_tensor()))
            evt(X, 'circuit/graph to_matrix', 'eq', lambda: x.to_matrix())
            evt(X, 'circuit/graph to_tensor', 'eq', lambda: x.to_tensor())
        except NotRepresentable: c.skipped += 1

def variant(rng, g):
    """a diagram near g: (new diagram)"""
    h = g.clone(); r = rng.random()
    vs = [v for v in h.vertices() if h.type(v) in (VT.Z, VT.X)]
    if r < .2 and type(h).backend == 'simple':
        try: zx.simplify.spider_simp(h, quiet=True)
        except ValueError: h = g.clone()       # parallel wires that the backend does not have
    elif r < .35 and type(h).backend == 'simple' and all(h.type(v) in (VT.Z, VT.X, VT.BOUNDARY) for v in h.vertices()): zx.full_reduce(h)
    elif r < .5 and vs: h.add_to_phase(rng.choice(vs), F(rng.choice([1, 2, 4, 7, 8]), 4))
    elif r < .6 and len(h.outputs()) > 1: h.set_outputs(tuple(reversed(h.outputs())))
    elif r < .75: h.scalar.add_phase(F(rng.randint(1, 7), 4)) if rng.random() < .5 else h.scalar.add_power(rng.choice([1, -1, 2]))
    elif r < .85 and np.abs(h.to_tensor(False)).max() > 1e-6:
        for _ in range(rng.choice([2, 3, 20])): h.add_vertex(rng.choice([VT.Z, VT.X]), 0, 0, 0)      # a factor of 2 each
    elif r < .9 and vs: h.set_type(rng.choice(vs), rng.choice([VT.Z, VT.X]))
    elif r < .95: h.scalar.add_power(-60)
    return h

def long(c, n=6):
    """long circuits: without their scalar, the entries of the tensor become small"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 2, 3]); x = zx.Circuit(q)
        for _ in range(rng.randint(40, 90)):
            a, b = rng.sample(range(q), 2); r = rng.random()
            if r < .75: x.add_gate(rng.choice(['CNOT', 'CNOT', 'CZ']), a, b)
            elif r < .85: x.add_gate('HAD', a)
            else: x.add_gate('ZPhase', a, phase=F(rng.randint(1, 7), 4))
        y = x.copy()
        if rng.random() < .5: y.add_gate('ZPhase', rng.randrange(q), phase=F(rng.randint(0, 7), 4)) 
        else: y.add_gate('CNOT', *rng.sample(range(q), 2))
        g = x.to_graph(); A, B = core.cobj(x), core.cobj(y); desc = gens.dump(g); ev = []
        def evt(nm, rel, f):
            ok, r = call(f); c.note('long ' + nm)
            if ok and np.abs(np.asarray(r)).max() > 1.001: ok, r = False, 'an entry of a unitary exceeds 1'
            try: ev.append((nm, rel, export_result(tenobj, r, q, q, strict=False) if ok else bad(r)))
            except NotRepresentable: c.skipped += 1
        evt('to_tensor', 'eq', lambda: g.to_tensor()); evt('to_matrix', 'eq', lambda: g.to_matrix()); evt('Circuit.to_matrix', 'eq', lambda: x.to_matrix()); evt('Circuit.to_tensor', 'eq', lambda: x.to_tensor())
        def unit():        # the entries of a unitary over this gate set lie in the ring up to a phase
            t = np.asarray(g.to_tensor(False)); t = t / np.sqrt((abs(t) ** 2).sum() / 2 ** q); k = t.flatten()[np.argmax(abs(t.flatten()))]
            return t * abs(k) / k
        evt('to_tensor(preserve_scalar=False)', 'prop', unit)
        c.add('long', A, ev, desc)
        for ps in (False, True):
            ok, r = call(lambda: T.compare_tensors(rng.choice([x, g, x.to_tensor()]), rng.choice([y, y.to_graph(), y.to_tensor()]), preserve_scalar=ps)); c.note('long compare_tensors')
            rel = {(0, 1): 'prop', (0, 0): 'neqnz', (1, 1): 'eq', (1, 0): 'neqx'}[(int(ps), int(bool(r)))] if ok else 'eq'
            c.add('long', A, [('compare_tensors(%s) said %s' % (ps, r), rel, B if ok else bad(r))], desc)
        ok, r = call(lambda: T.is_unitary(g)); c.add('long', A, [('is_unitary', 'eq', A if ok and r else bad('said %s' % r))], desc)

def compare(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        io = 2
        if rng.random() < .3:
            q = rng.randint(1, 3); a = gens.rand_circuit(rng, q, rng.randint(1, 8), 'T', 'T'); g = a.to_graph()
        else: g = rand(rng, io=io)
        h = variant(rng, g) if rng.random() < .85 else rand(rng, io=io)
        try:
            A, B = core.gobj(g), core.gobj(h); desc = '%s || %s' % (gens.dump(g), gens.dump(h))
            sq = (len(g.inputs()), len(g.outputs())) == (len(h.inputs()), len(h.outputs()))
            same = len(g.inputs()) + len(g.outputs()) == len(h.inputs()) + len(h.outputs())
            for ps in (False, True):
                x = g if rng.random() < .5 else g.to_tensor(); y = h if rng.random() < .5 else h.to_tensor()
                big = np.abs(np.asarray(h.to_tensor())).max() if ps else 1
                if ps and big < 1e-5: continue       # exact comparison is to numerical precision
                ok, r = call(lambda: T.compare_tensors(x, y, preserve_scalar=ps)); nm = 'compare_tensors(%s)' % ('exact' if ps else 'up to scalar'); c.note(nm + ' -> %s' % (r if ok else 'refused'))
                if not ok and 'too close to zero' in r: c.add('compare', A, [('refused, so the first map', 'zero', A)], desc); continue
                if not ok: c.add('compare', A, [(nm, 'eq', bad(r))], desc); continue
                if not sq:
                    # the tensor does not tell inputs from outputs: bring all boundaries to one side
                    if same:
                        A2, B2 = [dict(z, g=dict(z['g'], out=z['g']['out'] + z['g']['inp'], inp=[])) for z in (A, B)]
                    elif r: c.add('compare', A, [(nm, 'eq', bad('tensors of different shape reported equal'))], desc); continue
                    else: continue
                else: A2, B2 = A, B
                if not ps and min(np.abs(np.asarray(z.to_tensor(False))).max() for z in (g, h)) < 1e-6: continue     # zero up to rounding: proportionality is undecided
                rel = {(0, 1): 'prop', (0, 0): 'neqnz', (1, 1): 'eq', (1, 0): 'neqx'}[(int(ps), int(bool(r)))]
                c.add('compare', A2, [(nm + ' said %s' % r, rel, B2)], desc)
                if r and not ps:
                    # the scalar between them
                    ok, z = call(lambda: T.find_scalar_correction(g, h)); c.note('find_scalar_correction')
                    try: c.add('compare', A2, [('find_scalar_correction', 'eq', export_result(tenobj, z * h.to_tensor(), len(A2['g']['inp']), len(A2['g']['out']), strict=False) if ok else bad(z))], desc)
                    except NotRepresentable: c.skipped += 1
        except NotRepresentable: c.skipped += 1

def unitary(c, n=30):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        r = rng.random()
        if r < .4: q = rng.randint(1, 3); g = gens.rand_circuit(rng, q, rng.randint(0, 6), 'T', 'T').to_graph()
        elif r < .8: q = rng.randint(1, 2); g = ring_phases(diagram(rng, q, q, kind=rng.choice(['zx', 'gl', 'wires', 'h'])))
        else: g = ring_phases(diagram(rng, rng.randint(0, 2), rng.randint(0, 2), kind=rng.choice(['zx', 'wires'])))
        if rng.random() < .3 and g.num_inputs() and g.num_outputs(): g.apply_state('0'); g.apply_effect('0')
        try:
            A = core.gobj(g); q = len(g.inputs()); desc = gens.dump(g)
            ok, r = call(lambda: T.is_unitary(g)); c.note('is_unitary -> %s' % (r if ok else 'refused'))
            one = core.cobj(zx.Circuit(q)); 
            if not ok and 'too close to zero' in r: c.add('is_unitary', A, [('refused, so the map', 'zero', A)], desc); continue
            if not ok and UNRED in r: c.skipped += 1; continue
            if not ok: c.add('is_unitary', A, [('is_unitary', 'eq', bad(r))], desc); continue
            if len(g.inputs()) != len(g.outputs()):
                if r: c.add('is_unitary', A, [('is_unitary', 'eq', bad('a map between different numbers of qubits reported unitary'))], desc)
                continue
            ident = core.gobj(zx.Circuit(q).to_graph())
            c.add('is_unitary', ident, [('is_unitary said %s' % r, 'prop' if r else 'neq', core.then(A, core.adj(A)))], desc)
        except NotRepresentable: c.skipped += 1

# ------------------------------------------------------------- quimb
class QT:
    def __init__(self, data=1.0, inds=(), tags=()): self.data = np.asarray(data, dtype=complex); self.inds = tuple(inds)
    def modify(self, **k):
        for a, b in k.items(): setattr(self, a, np.asarray(b, dtype=complex) if a == 'data' else b)
class QN:
    """records what a tensor network is built from; the value of the network is the sum over all inner indices"""
    def __init__(self, ts): self.ts = list(ts); self.exponent = 0.0
    def distribute_exponent(self): pass
def fake_quimb():
    qu = types.ModuleType('quimb'); qt = types.ModuleType('quimb.tensor')
    qu.hadamard = lambda: np.array([[1, 1], [1, -1]]) / np.sqrt(2); qu.tensor = qt
    qt.Tensor = QT; qt.TensorNetwork = QN
    sys.modules['quimb'] = qu; sys.modules['quimb.tensor'] = qt
def dense(net, outer):
    names = {}
    ops = []
    for t in net.ts:
        ops += [t.data, [names.setdefault(x, len(names)) for x in t.inds]]
    free = [x for x in outer]
    for x in free:
        if x not in names: raise AssertionError('boundary %s is not an index of the network' % x)
    return np.einsum(*ops, [names[x] for x in free]) * 10 ** net.exponent

def quimb(c, n=30):
    rng = c.rng; fake_quimb()
    import pyzx.quimb as Q
    Q.qu = Q.qtn = None
    for i in range(n):
        if not c.more(): break
        a, b = rng.randint(0, 2), rng.randint(0, 2)
        g = ring_phases(diagram(rng, a, b, rng.choice(['simple', 'multigraph']), rng.choice(['zx', 'gl', 'wires']))).copy()
        if rng.random() < .1: g.scalar.is_zero = True
        try:
            A = core.gobj(g); desc = '%s %s' % (type(g).backend, gens.dump(g)); ix = {v: str(k) for k, v in enumerate(g.vertices())}
            ok, t = call(lambda: dense(Q.to_quimb_tensor(g), [ix[v] for v in g.outputs()] + [ix[v] for v in g.inputs()])); c.note('to_quimb_tensor')
            c.add('quimb', A, [('to_quimb_tensor', 'eq', export_result(tenobj, t, a, b, strict=False) if ok else bad(t)), ('diagram untouched', 'same', core.gobj(g))], desc)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 5 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c13', [('tens', dict(n=60 * k)), ('algebra', dict(n=30 * k)), ('compare', dict(n=70 * k)), ('unitary', dict(n=40 * k)), ('long', dict(n=6 * k)), ('quimb', dict(n=30 * k))], b))
    return chk.finish('seeded diagrams of all vertex kinds with phases in multiples of pi/4; non-trivial when recorded objects are distinct')
