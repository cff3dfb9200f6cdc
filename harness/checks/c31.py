"""C31: diagrams with grounds and circuits with measurements against module Hybrid."""
from fractions import Fraction as F
import random, json
import core, gens, tlc
from framework import *
import pyzx as zx
from pyzx import rules as R, basicrules as B, simplify as S
from pyzx.circuit import gates as G
from pyzx.circuit.gates import Measurement, DiscardBit
from pyzx.utils import VertexType as VT, EdgeType as ET
from checks import c01, c02

P1 = (core.P - 1) // 2

def gdump(g): 
    r, ix = core.graph_plain(g, ground=True)
    return 'ty=%s ph=%s ed=%s in=%s out=%s grounds=%s' % (r['ty'], [str(F(x, core.HALF)) for x in r['ph']], r['ed'], r['inp'], r['out'], sorted(ix[v] for v in g.grounds()))

# ------------------------------------------------------------- circuits
CONJ = ['cliff', 'T', 'zx', 'full', 'basic', 'opt']
def op(rng, q, b):
    """a gate, a measurement or a discarded bit"""
    r = rng.random()
    if r < .3: return Measurement(rng.randrange(q), rng.randrange(b) if b and rng.random() < .7 else None)
    if r < .4 and b: return DiscardBit(rng.randrange(b))
    while True:
        g = gens.rand_gate(rng, q, rng.choice(CONJ), 'T')
        if type(g).__name__ not in ('CY',): return g      # the only gate whose conjugate is not one of the gates
def hcircuit(rng, q=None, b=None, n=None):
    q = q or rng.randint(1, 3); b = rng.randint(0, 2) if b is None else b
    c = zx.Circuit(q, bit_amount=b) if b or rng.random() < .5 else zx.Circuit(q)
    for _ in range(rng.randint(0, 6) if n is None else n): c.gates.append(op(rng, q, b))
    return c
def hdesc(c): return '%d qubits, %d bits: %s' % (c.qubits, c.bits, '; '.join(gstr(g) for g in c.gates))
def gstr(g):
    if isinstance(g, Measurement): return 'Measurement(%s,%s)' % (g.target, g.result_bit)
    if isinstance(g, DiscardBit): return 'DiscardBit(%s)' % g.target
    return str(g)

def rec(ev, name, ok, r, f, rel='prop', strict=True): ev.append((name, rel, export_result(f, r, strict=strict) if ok else bad(r))); return ok

def from_model(m):
    c = zx.Circuit(m['hq'], bit_amount=m['hb'])
    for o in m['ops']:
        q = [x - 1 for x in o['q']]; p = o['p']
        if o['nm'] == 'MEAS': c.add_gate('Measurement', q[0], p[0] - 1 if p else None)
        elif o['nm'] == 'DISC': c.add_gate('DiscardBit', p[0] - 1)
        elif o['nm'] == 'ZPhase': c.add_gate('ZPhase', q[0], F(p[0], P1))
        elif o['nm'] == 'XPhase': c.add_gate('XPhase', q[0], F(p[0], P1))
        else: c.add_gate(o['nm'], *q)
    return c

def graph_events(c, circ, ev):
    """the diagram of a circuit, and the diagram after a strategy"""
    rng = c.rng; comp = rng.random() < .6
    ok, g = call(circ.to_graph, compress_rows=comp) if not comp or rng.random() < .5 else call(circ.to_graph)
    if not rec(ev, 'to_graph(compress_rows=%s)' % comp, ok, g, core.procobj): return
    nm = rng.choice(c01.ANY + ['full_reduce', 'clifford_simp', 'teleport_reduce'])
    if nm == 'teleport_reduce':
        ok, h = call(S.teleport_reduce, g); rec(ev, nm, ok, h, core.procobj)
    else:
        ok, r = call(c01.run, nm, g); rec(ev, nm, ok, g if ok else r, core.procobj)

def behaviours(c, ms):
    """every hybrid circuit of HybridGen"""
    for i, m in enumerate(ms):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        circ = from_model(m); start = core.hobj(m['hq'], m['hb'], {'ops': m['ops'], 'qm': list(range(1, m['hq'] + 1)), 'bm': list(range(1, m['hb'] + 1))})
        ev = []; c.note('TLC behaviour')
        try: graph_events(c, circ, ev)
        except NotRepresentable: c.skipped += 1
        c.add('behaviour', start, ev, hdesc(circ))

def circuits(c, n):
    """random hybrid circuits: diagrams, and the algebra of circuits"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        a = hcircuit(rng)
        try: start = core.hcobj(a)
        except NotRepresentable: c.skipped += 1; continue
        ev = []; desc = hdesc(a)
        try:
            graph_events(c, a, ev)
            for nm in rng.sample(['copy', 'to_basic_gates', 'split_phase_gates'], 2):
                ok, r = call(getattr(a, nm)); c.note(nm); rec(ev, nm, ok, r, core.hcobj)
                if ok and rng.random() < .3: graph_events(c, r, ev)
            if ok and (a.bits or rng.random() < .3):
                o = hcircuit(rng, a.qubits, a.bits if rng.random() < .5 else None)
                if a.bits or o.bits:
                    x, y = rng.choice([(a, o), (o, a)]); ok, r = call(x.verify_equality, y); c.note('verify_equality refused')
                    if ok: ev.append(('hybrid circuits are not compared', 'prop', bad('verify_equality answered %s' % r)))
        except NotRepresentable: c.skipped += 1
        c.add('circuits', start, ev, desc)
        # composition, with masks; tensor
        k = rng.choice(['add_circuit', 'mask', 'bit_mask', 'both', 'tensor', 'plus', 'iadd', 'matmul']); c.note(k); W = lambda x: x.qubits + x.bits
        try:
            if k in ('add_circuit', 'plus', 'iadd'):
                b = hcircuit(rng, a.qubits, a.bits); parts = [core.hpart(a), core.hpart(b)]; q, bb = a.qubits, a.bits
                if k == 'add_circuit': r = a.copy(); ok, x = call(r.add_circuit, b)
                elif k == 'plus': ok, r = call(lambda: a + b); x = r
                else:
                    r = a.copy()
                    def f():
                        nonlocal r
                        r += b
                    ok, x = call(f)
            elif k in ('tensor', 'matmul'):
                b = hcircuit(rng, rng.randint(1, 2), rng.randint(0, 2)); q, bb = a.qubits + b.qubits, a.bits + b.bits
                if q + bb > 5: continue
                parts = [core.hpart(a), core.hpart(b, [a.qubits + j for j in range(b.qubits)], [a.bits + j for j in range(b.bits)])]
                ok, r = call(a.tensor, b) if k == 'tensor' else call(lambda: a @ b); x = r
            else:
                bq = rng.randint(1, a.qubits) if k != 'bit_mask' else a.qubits; bb_ = rng.randint(0, a.bits) if k != 'mask' else a.bits
                b = hcircuit(rng, bq, bb_); qm = rng.sample(range(a.qubits), bq) if k != 'bit_mask' else list(range(a.qubits)); bm = rng.sample(range(a.bits), bb_) if k != 'mask' else list(range(a.bits))
                parts = [core.hpart(a), core.hpart(b, qm, bm)]; q, bb = a.qubits, a.bits; r = a.copy()
                kw = {}
                if k != 'bit_mask': kw['mask'] = qm
                if k != 'mask': kw['bit_mask'] = bm
                ok, x = call(r.add_circuit, b, **kw)
            ev = []
            if rec(ev, k, ok, r if ok else x, core.hcobj):
                if (r.qubits, r.bits) != (q, bb): ev.append((k, 'prop', bad('%s qubits and %s bits, expected %s and %s' % (r.qubits, r.bits, q, bb))))
                elif rng.random() < .3: graph_events(c, r, ev)
            c.add('circuit algebra', core.hobj(q, bb, *parts), ev, '%s ; %s ; %s' % (k, desc, hdesc(b)))
        except NotRepresentable: c.skipped += 1

# ------------------------------------------------------------- diagrams
def ground(rng, g, p=.3):
    for v in list(g.vertices()):
        if g.type(v) in (VT.Z, VT.X) and rng.random() < p: g.set_ground(v)
    return g
def tree_grounds(rng, g, k=None):
    """single-legged grounded spiders, as they arise from discarded wires"""
    vs = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]
    for _ in range(k or rng.randint(1, 2)):
        if vs:
            v = g.add_vertex(VT.Z, 4, 1, ground=True); g.add_edge((v, rng.choice(vs)), ET.HADAMARD)
    return g

def hdiagram(rng, nm):
    p = rng.choice([.15, .3, .5]); gl = nm in c01.GL or rng.random() < .5; phk = rng.choice(['pauli', 'cliff', 'T', 'any'])
    r = rng.random()
    if nm == 'supplementarity_simp': return ground(rng, gens.twin_diagram(rng), p)
    if nm in ('gadget_simp',) or r < .2: return ground(rng, gens.gadget_diagram(rng, rng.randint(1, 3), rng.randint(1, 3), phk='T'), p)
    if nm == 'copy_simp': return ground(rng, gens.salt(rng, gens.rand_diagram(rng, rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2), phk=phk, gl=True)), p)
    if nm in ('pivot_simp', 'lcomp_simp', 'pivot_gadget_simp') and r < .6: return ground(rng, gens.star_diagram(rng, {'pivot_simp': 'pauli', 'lcomp_simp': 'cliff'}.get(nm, 'T'), deg=rng.randint(2, 4)), p)
    g = gens.rand_diagram(rng, gens.size(rng, 1, 6, 10), rng.randint(0, 2), rng.randint(0, 2), phk=phk, gl=gl, dens=rng.choice([.25, .45]), ptype=rng.choice([.5, .8]))
    return ground(rng, g, p) if rng.random() < .6 else tree_grounds(rng, ground(rng, g, .1))

def diagrams(c, n):
    """simplification of diagrams with grounds, scalar included"""
    rng = c.rng
    names = c01.ANY + [x for x in c01.GL if x != 'reduce_scalar'] + ['full_reduce', 'clifford_simp', 'gadget_simp', 'teleport_reduce']
    for i in range(n):
        if not c.more(): break
        nm = names[(i + c.shard) % len(names)]; g = hdiagram(rng, nm)
        if not g.grounds(): continue
        try:
            start = core.procobj(g); desc = nm + ' ' + gdump(g); ev = []; c.note(nm)
            for k in [nm] + ([rng.choice(c01.ANY)] if rng.random() < .4 and nm != 'teleport_reduce' else []):
                if k == 'teleport_reduce': ok, g = call(S.teleport_reduce, g); r = g
                else: ok, r = call(c01.run, k, g)
                if not rec(ev, k, ok, g if ok else r, core.procobj, 'eq', core.tphases(start['g'])): break
            c.add('simplify', start, ev, desc)
        except NotRepresentable: c.skipped += 1

ONE = [('color_change', B.check_color_change, B.color_change), ('remove_id', B.check_remove_id, B.remove_id), ('copy_X', B.check_copy_X, B.copy_X), ('copy_Z', B.check_copy_Z, B.copy_Z),
       ('pi_commute_Z', B.check_pi_commute_Z, B.pi_commute_Z), ('pi_commute_X', B.check_pi_commute_X, B.pi_commute_X)]
TWO = [('fuse', B.check_fuse, B.fuse), ('strong_comp', B.check_strong_comp, B.strong_comp)]

def basic(c, n):
    """the basic rules at every place where their check says they apply, and unspider"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 2), phk=rng.choice(['pauli', 'cliff', 'T']), dens=.5, phad=.3)
        if rng.random() < .5: gens.salt(rng, g, kinds=(VT.Z, VT.X), had=.2)
        ground(rng, g, .4)
        if not g.grounds(): continue
        try: start = core.procobj(g)
        except NotRepresentable: c.skipped += 1; continue
        desc = gdump(g); ev = []; vs = list(g.vertices())
        cand = [(nm, chk, ap, (v,)) for nm, chk, ap in ONE for v in vs] + [(nm, chk, ap, tuple(g.edge_st(e)) if rng.random() < .5 else tuple(g.edge_st(e))[::-1]) for nm, chk, ap in TWO for e in g.edges()]
        cand = [x for x in cand if call(x[1], g.clone(), *x[3])[1] is True]
        rng.shuffle(cand)
        seen = set()
        for nm, chk, ap, a in cand:
            if nm in seen: continue
            seen.add(nm); h = g.clone(); c.note(nm)
            try:
                ok, r = call(ap, h, *a)
                if not ok and 'unreducible parallel edge' in r: continue
                if ok and r is False: ev.append((nm, 'eq', bad('it was refused although its check says that it applies'))); continue
                rec(ev, '%s%s' % (nm, a), ok, h if ok else r, core.procobj, 'prop' if nm in ('strong_comp', 'copy_X', 'copy_Z') else 'eq')
            except NotRepresentable: c.skipped += 1
        zs = [v for v in vs if g.type(v) in (VT.Z, VT.X)]
        if zs:
            h = g.clone(); v = rng.choice(zs); nb = [x for x in h.neighbors(v)]; nb = rng.sample(nb, rng.randint(0, len(nb)))
            m = [v, nb] + ([gens.phase(rng, 'T')] if rng.random() < .5 else []); c.note('unspider')
            try: ok, r = call(R.unspider, h, m); rec(ev, 'unspider%s' % (tuple(m),), ok, h if ok else r, core.procobj, 'eq')
            except NotRepresentable: c.skipped += 1
        if ev: c.add('basic rules', start, ev, desc)

def algebra(c, n):
    """the algebra of diagrams, backends and documents"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        ni, no = rng.randint(0, 2), rng.randint(0, 2)
        a = ground(rng, gens.rand_diagram(rng, rng.randint(1, 3), ni, no, phk='T', direct=.2)); 
        try:
            oa = core.procobj(a); da = gdump(a); ev = []
            k = rng.choice(['copy', 'adjoint', 'json', 'multigraph', 'subgraph']); c.note(k)
            if k == 'copy': ok, r = call(rng.choice([lambda: a.copy(), lambda: a.clone(), lambda: a.copy(backend='multigraph')]))
            elif k == 'json': ok, r = call(lambda: zx.Graph.from_json(a.to_json()) if hasattr(zx.Graph, 'from_json') else type(a).from_json(a.to_json()))
            elif k == 'multigraph': ok, r = call(lambda: a.copy(backend='multigraph').copy(backend='simple'))
            elif k == 'subgraph': ok, r = call(lambda: a.subgraph_from_vertices(list(a.vertices()))); 
            else: ok, r = call(a.adjoint)
            if k == 'subgraph' and ok:
                at = dict(zip(a.vertices(), r.vertices())); r.set_inputs(tuple(at[v] for v in a.inputs())); r.set_outputs(tuple(at[v] for v in a.outputs())); r.scalar = a.scalar.copy()
            rec(ev, k, ok, r, core.procobj, 'eq')
            c.add('algebra', core.adj(oa) if k == 'adjoint' else oa, ev, k + ' ' + da)
            k = rng.choice(['compose', 'mul', 'tensor', 'matmul']); c.note(k)
            b = ground(rng, gens.rand_diagram(rng, rng.randint(1, 3), no if k in ('compose', 'mul') else rng.randint(0, 1), rng.randint(0, 2), phk='T', direct=.2)); ob = core.procobj(b)
            db = gdump(b); ev = []
            if k in ('compose', 'mul'):
                if k == 'compose': r = a.copy(); ok, x = call(r.compose, b)
                else: ok, r = call(lambda: a + b) if hasattr(a, '__add__') else call(lambda: b * a); x = r
                start = core.then(oa, ob)
            else:
                ok, r = call(a.tensor, b) if k == 'tensor' else call(lambda: a @ b); x = r
                # the doubled product lists the wires of a, of its conjugate, of b and of its conjugate
                def perm(p, q): return list(range(p)) + [2 * p + j for j in range(q)] + [p + j for j in range(p)] + [2 * p + q + j for j in range(q)]
                start = core.permio(core.par(oa, ob), perm(len(oa['g']['inp']), len(ob['g']['inp'])), perm(len(oa['g']['out']), len(ob['g']['out'])))
            rec(ev, k, ok, r if ok else x, core.procobj, 'eq')
            c.add('algebra', start, ev, '%s %s WITH %s' % (k, da, db))
        except NotRepresentable: c.skipped += 1

def discard(n):
    g = zx.Graph(); vs = []
    for q in range(n):
        b = g.add_vertex(VT.BOUNDARY, q, 0); v = g.add_vertex(VT.Z, q, 1, ground=True); g.add_edge((b, v)); vs.append(b)
    g.set_inputs(tuple(vs)); return g

def generated(c, n):
    """random hybrid diagrams of the generator: discarding the outputs is discarding the inputs, and they simplify"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(2, 3); d = rng.randint(1, 12); seed = rng.randrange(10 ** 6)
        kw = rng.choice([{}, {'p_meas': .4}, {'p_t': .3, 'p_meas': .3}, {'p_meas': 0.3, 'p_hsh': .2, 'p_cnot': .3}])
        random.seed(seed); ok, g = call(zx.generate.cliffordTmeas, q, d, **kw); c.note('cliffordTmeas'); desc = 'cliffordTmeas(%d, %d, %s) with random.seed(%d)' % (q, d, kw, seed)
        try:
            dq = core.procobj(discard(q))
            if not ok: c.add('generated', dq, [('cliffordTmeas', 'prop', bad(g))], desc); continue
            if g.num_inputs() != q or g.num_outputs() != q: c.add('generated', dq, [('cliffordTmeas', 'prop', bad('%d inputs and %d outputs' % (g.num_inputs(), g.num_outputs())))], desc); continue
            o = core.procobj(g)
            c.add('generated', dq, [('cliffordTmeas is trace preserving', 'eq', core.then(o, dq))], desc)
            if not g.grounds(): continue
            ev = []; nm = rng.choice(['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'teleport_reduce', 'to_graph_like'])
            if nm == 'teleport_reduce': ok, r = call(S.teleport_reduce, g)
            else: h = g.copy(); ok, r = call(c01.run, nm, h); r = h if ok else r
            rec(ev, nm, ok, r, core.procobj, 'eq'); c.add('generated', o, ev, nm + ' ' + desc)
        except NotRepresentable: c.skipped += 1

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in ('11', '12', '20', '21'):
        ms += [x for x in tlc.printed(chk.model('HybridGen.tla', 'HybridGen%s.cfg' % k, workers=4, pure=False)) if 'hq' in x]
    chk.model('GroundGen.tla', 'GroundGen.cfg', workers=4, pure=False)
    chk.extra['behaviours_enumerated_by_TLC'] = len(ms)
    if q: random.Random(chk.seed).shuffle(ms); ms = ms[:500]
    t = 9 if q else 200
    chk.validate(chk.gen('checks.c31', [('behaviours', dict(ms=ms)), ('circuits', dict(n=25 if q else 900)), ('diagrams', dict(n=150 if q else 5000)),
                                        ('basic', dict(n=25 if q else 900)), ('algebra', dict(n=25 if q else 900)), ('generated', dict(n=15 if q else 500))], t))
    return chk.finish('a case is non-trivial when it is not identical to another')
