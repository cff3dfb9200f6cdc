"""C07: circuits, gates, decompositions and diagrams denote the same linear map."""
from fractions import Fraction as F
import numpy as np
import core, gens
from framework import *
import pyzx as zx
from pyzx.circuit import gates as G, Circuit
from pyzx.utils import VertexType as VT, EdgeType as ET

# gates whose decomposition is documented only up to a global phase
LOSSY = (G.CHAD, G.CRX, G.CU, G.CU3, G.RXX, G.U2, G.U3, G.YPhase)
def relof(c, fine=True):
    if not any(isinstance(g, LOSSY) for g in c.gates): return 'eq'
    return 'phase' if fine else 'prop'

KINDS = ['ZPhase', 'Z', 'S', 'Sd', 'T', 'Td', 'XPhase', 'NOT', 'SX', 'SXd', 'YPhase', 'Y', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CY', 'CHAD', 'CSX', 'CRX', 'CRY', 'CRZ',
         'CPhase', 'RXX', 'RZZ', 'ParityPhase', 'CCZ', 'Tofolli', 'CSWAP', 'U2', 'U3', 'CU3', 'CU', 'FSim']
def make(kind, qs, ph):
    a = list(qs)
    if kind in ('ZPhase', 'XPhase', 'YPhase'): return getattr(G, kind)(a[0], ph())
    if kind in ('Z', 'NOT', 'Y', 'HAD', 'S', 'T', 'SX'): return getattr(G, kind)(a[0])
    if kind in ('Sd', 'Td', 'SXd'): return getattr(G, kind[:-1])(a[0], adjoint=True)
    if kind in ('CNOT', 'CZ', 'XCX', 'SWAP', 'CY', 'CHAD', 'CSX'): return getattr(G, kind)(a[0], a[1])
    if kind in ('CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ'): return getattr(G, kind)(a[0], a[1], ph())
    if kind == 'ParityPhase': return G.ParityPhase(ph(), *a)
    if kind in ('CCZ', 'Tofolli', 'CSWAP'): return getattr(G, kind)(*a[:3])
    if kind == 'U2': return G.U2(a[0], ph(), ph())
    if kind == 'U3': return G.U3(a[0], ph(), ph(), ph())
    if kind == 'CU3': return G.CU3(a[0], a[1], ph(), ph(), ph())
    if kind == 'CU': return G.CU(a[0], a[1], ph(), ph(), ph(), ph())
    if kind == 'FSim': return G.FSim(a[0], a[1], F(1, 2), ph())

def matobj(c):
    m = c.to_matrix()
    return core.mobj(np.asarray(m).tolist(), c.qubits, c.qubits)
def tenobj(t, nin, nout):
    """tensor with outputs first, then inputs"""
    return core.mobj(np.asarray(t).reshape(2 ** nout, 2 ** nin).tolist(), nin, nout)

def gate(c, n=100):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        kind = KINDS[(i + c.shard * 5) % len(KINDS)]
        q = rng.randint(3, 4)
        pk = rng.choice(['any', 'any', 'T', 'T', 'cliff'])
        gt = make(kind, rng.sample(range(q), rng.randint(1, q) if kind == 'ParityPhase' else min(3, q)), lambda: gens.angle(rng, pk))
        circ = Circuit(q)
        ok, r = call(circ.add_gate, gt)
        t = pk in ('T', 'cliff')
        try:
            start = core.cobj(circ); desc = gens.circ_desc(circ) + ' ' + kind; ev = []; rel = relof(circ, t)
            def evt(name, rel, f):
                ok, r = call(f)
                if not ok: ev.append((name, rel, bad(r)))
                else: ev.append((name, rel, r))
            c.note(kind)
            if not ok: ev.append(('add_gate', 'eq', bad(r)))
            evt('to_graph', rel, lambda: export_result(core.gobj, circ.to_graph()))
            evt('to_graph(compress_rows=False)', rel, lambda: export_result(core.gobj, circ.to_graph(compress_rows=False)))
            evt('to_graph(zh)', rel, lambda: export_result(core.gobj, circ.to_graph(zh=True)))
            if kind != 'FSim':
                evt('to_basic_gates', rel, lambda: export_result(core.cobj, circ.to_basic_gates()))
                evt('to_basic_gates().to_graph', rel, lambda: export_result(core.gobj, circ.to_basic_gates().to_graph()))
            if isinstance(gt, (G.ZPhase, G.XPhase)): evt('split_phases', rel, lambda: export_result(core.cobj, _gates(q, gt.split_phases())))
            if t and rng.random() < .6:
                try: evt('to_matrix', rel, lambda: export_result(matobj, circ, strict=pk == 'cliff'))
                except NotRepresentable: c.skipped += 1
            evt('graph in the simple backend', rel, lambda: export_result(core.gobj, circ.to_graph(backend='simple')))
            evt('graph in the multigraph backend', rel, lambda: export_result(core.gobj, circ.to_graph(backend='multigraph')))
            c.add('gate', start, ev, desc)
        except NotRepresentable: c.skipped += 1

def _gates(q, gs):
    c = Circuit(q)
    for g in gs: c.add_gate(g)
    return c

def circuit(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = gens.size(rng, 1, 5, 8); pk = rng.choice(['T', 'any'])
        circ = gens.rand_circuit(rng, q, rng.randint(0, 25), kind=rng.choice(['full', 'basic', 'opt', 'T']), phk=pk)
        try:
            start = core.cobj(circ); desc = gens.circ_desc(circ); ev = []; rel = relof(circ, pk == 'T')
            def evt(name, rel, f):
                ok, r = call(f); ev.append((name, rel, r if ok else bad(r)))
            cr = rng.random() < .5
            evt('to_graph(compress_rows=%s)' % cr, rel, lambda: export_result(core.gobj, circ.to_graph(compress_rows=cr)))
            if not any(isinstance(g, G.FSim) for g in circ.gates):
                evt('to_basic_gates', rel, lambda: export_result(core.cobj, circ.to_basic_gates()))
            evt('split_phase_gates', rel, lambda: export_result(core.cobj, circ.split_phase_gates()))
            c.add('circuit', start, ev, desc)
        except NotRepresentable: c.skipped += 1

SUP = ['h', 'zp', 'xp', 'cx', 'cz', 'xcx', 's', 't', 'x', 'z']
def back(c, n=60):
    """reading a circuit back from its own diagram"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = gens.size(rng, 1, 5, 8); pk = rng.choice(['T', 'any', 'T'])
        circ = Circuit(q)
        for _ in range(rng.randint(0, 25)):
            while True:
                g = gens.rand_gate(rng, q, rng.choice(['opt', 'zx', 'T']), pk)
                if not isinstance(g, (G.CCZ, G.ParityPhase, G.SWAP)): break
            circ.gates.append(g)
        try:
            start = core.cobj(circ); desc = gens.circ_desc(circ); ev = []
            for sp in (True, False):
                ok, r = call(lambda: Circuit.from_graph(circ.to_graph(compress_rows=rng.random() < .7), split_phases=sp))
                ev.append(('from_graph(split_phases=%s)' % sp, 'eq', export_result(core.cobj, r) if ok else bad(r)))
            ok, r = call(lambda: zx.circuit.graphparser.graph_to_circuit(circ.to_graph(zh=True)))
            ev.append(('graph_to_circuit', 'eq', export_result(core.cobj, r) if ok else bad(r)))
            c.add('from_graph', start, ev, desc)
        except NotRepresentable: c.skipped += 1

def ancilla(c, n=30):
    """circuits with ancillas that are created and post-selected"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 3); k = rng.randint(1, 2)
        full = Circuit(q + k); circ = Circuit(q)
        try:
            gs = [gens.rand_gate(rng, q + k, 'basic', 'T') for _ in range(rng.randint(1, 12))]
            before = rng.randint(0, 4); pre = [gens.rand_gate(rng, q, 'basic', 'T') for _ in range(before)]; post = [gens.rand_gate(rng, q, 'basic', 'T') for _ in range(rng.randint(0, 4))]
            full.gates = pre + gs + post
            circ.gates = pre + [G.InitAncilla(q + j) for j in range(k)] + gs + [G.PostSelect(q + j) for j in range(k)] + post
            start = {'k': 'anc', 'c': core.circ_rec(full), 'anc': [q + j + 1 for j in range(k)]}
            ok, r = call(circ.to_graph, compress_rows=rng.random() < .5)
            c.note('ancilla')
            c.add('ancilla', start, [('to_graph', 'eq', export_result(core.gobj, r) if ok else bad(r))], gens.circ_desc(full) + ' with ancillas %d..' % q)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 7 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c07', [('gate', dict(n=140 * k)), ('circuit', dict(n=60 * k)), ('back', dict(n=60 * k)), ('ancilla', dict(n=25 * k))], b))
    return chk.finish('every gate type at random placements and parameters, random circuits; non-trivial when recorded objects are distinct')
