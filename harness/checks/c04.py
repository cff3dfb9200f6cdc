"""C04: circuit extraction returns a circuit for the same linear map."""
from fractions import Fraction as F
import core, gens
from framework import *
import framework
framework.CALL_LIMIT = 25.0   # extraction of diagrams of this size takes well under a second
import pyzx as zx
from pyzx import extract as E, simplify as S
from pyzx.circuit import gates as G, Circuit
from pyzx.utils import VertexType as VT, EdgeType as ET

PREP = ['full_reduce', 'full_reduce', 'full_reduce', 'clifford_simp', 'interior_clifford_simp', 'to_graph_like', 'clifford_then_full', 'spider_simp']
def prep(name, g):
    if name == 'clifford_then_full': S.clifford_simp(g, quiet=True); S.full_reduce(g, quiet=True)
    elif name == 'to_graph_like': S.to_graph_like(g)
    elif name == 'spider_simp': S.to_gh(g); S.spider_simp(g, quiet=True); S.to_graph_like(g)
    else: getattr(S, name)(g, quiet=True)

def source(rng, kinds=('zx', 'T', 'cliff', 'opt', 'cnotT'), q=None, d=None, phk=None):
    q = q or rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
    phk = phk or rng.choice(['T', 'T', 'T', 'cliff', 'any'])
    circ = gens.rand_circuit(rng, q, d if d is not None else rng.randint(0, 40), kind=rng.choice(kinds), phk=phk)
    return circ, phk

def history(c, site, circ, phk, pre, opts):
    """start: the circuit; the diagram after simplification; the extracted circuits"""
    rng = c.rng
    fine = 'phase' if phk in ('T', 'cliff') else 'prop'
    try:
        start = core.cobj(circ); ev = []
        g = circ.to_graph()
        ok, r = call(prep, pre, g)
        ev.append((pre, 'eq', export_result(core.gobj, g, strict=phk in ('T', 'cliff')) if ok else bad(r)))
        desc = gens.circ_desc(circ) + ' | ' + pre
        for name, f, perm in opts:
            h = g.copy() if rng.random() < .5 else g.clone()
            ok, r = call(f, h)
            c.note(name.split('(')[0] + '/' + pre)
            if ok and r is None and 'limit' in name: continue       # nothing below the limit
            ev.append((name, 'perm' if perm else fine, export_result(core.cobj, r) if ok else bad(r)))
        c.add(site, start, ev, desc)
    except NotRepresentable: c.skipped += 1

def ext(rng):
    oc, ocz, up = rng.choice([0, 1, 2, 2, 3]), rng.random() < .6, rng.random() < .25
    return ('extract_circuit(optimize_cnots=%d,optimize_czs=%s,up_to_perm=%s)' % (oc, ocz, up),
            lambda h: E.extract_circuit(h, optimize_cnots=oc, optimize_czs=ocz, up_to_perm=up), up)

def main_extract(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        pre = rng.choice(PREP)
        circ, phk = source(rng, d=rng.randint(0, 12) if pre in ('to_graph_like', 'spider_simp') else None)
        circ = circ.to_basic_gates() if any(isinstance(g, (G.CCZ,)) for g in circ.gates) else circ
        history(c, 'extract_circuit', circ, phk, pre, [ext(rng) for _ in range(2)])

def lookahead(c, n=10):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ, phk = source(rng, q=rng.randint(1, 4), d=rng.randint(0, 25), kinds=('zx', 'T', 'cliff'))
        dep, up = rng.random() < .3, rng.random() < .25
        nm = rng.choice(['lookahead_fast', 'lookahead_extract', 'lookahead_full'])
        history(c, 'lookahead', circ, phk, 'full_reduce', [('%s(depth=%s,up_to_perm=%s)' % (nm, dep, up), lambda h: getattr(E, nm)(h, dep, up), up)])

def lookahead_base(c, n=20):
    """the search itself, without the standard extractions to fall back on, on diagrams with many gadgets"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 3, 4, 4, 5])
        circ = gens.rand_circuit(rng, q, rng.randint(15, 55), rng.choice(['zx', 'T', 'T', 'cnotT']), 'T')
        algs = rng.choice([[0, 1], [0, 2], [0, 3], [0, 1, 2], [0, 1, 2, 3]]); dep, up = rng.random() < .3, rng.random() < .2
        steps, dl, me, nk = rng.choice([-1, 2, 4 * q]), rng.choice([2, 4, 8]), rng.choice([0, 2, 5]), rng.choice([1, 2, 4])
        hl, cb = (rng.randint(0, 40) if rng.random() < .3 else -1), rng.random() < .2
        history(c, 'lookahead', circ, 'T', rng.choice(['full_reduce', 'full_reduce', 'clifford_simp']),
                [('lookahead_extract_base(algorithms=%s,depth=%s,up_to_perm=%s,compare_basic=%s%s)' % (algs, dep, up, cb, ',limit=%d' % hl if hl >= 0 else ''),
                  lambda h: E.lookahead_extract_base(h, steps, dl, me, nk, hl, algs, dep, cb, up), up)])

def simple(c, n=30):
    """extract_simple on diagrams with causal flow"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ, phk = source(rng, kinds=('zx', 'T', 'basic'), d=rng.randint(0, 20))
        up = rng.random() < .4
        def f(h):
            r = rng.random()
            if r < .4: S.spider_simp(h, quiet=True)
            elif r < .7: S.spider_simp(h, quiet=True); S.id_simp(h, quiet=True)
            return E.extract_simple(h, up_to_perm=up)
        fine = 'perm' if up else ('phase' if phk in ('T', 'cliff') else 'prop')
        try:
            start = core.cobj(circ); ok, r = call(f, circ.to_graph())
            c.note('extract_simple')
            c.add('extract_simple', start, [('extract_simple(up_to_perm=%s)' % up, fine, export_result(core.cobj, r) if ok else bad(r))], gens.circ_desc(circ))
        except NotRepresentable: c.skipped += 1

def cliffordnf(c, n=25):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ, phk = source(rng, kinds=('cliff',), phk='cliff')
        try:
            start = core.cobj(circ)
            ok, r = call(E.extract_clifford_normal_form, circ.to_graph())
            c.note('extract_clifford_normal_form')
            c.add('extract_clifford_normal_form', start, [('extract_clifford_normal_form', 'phase', export_result(core.cobj, r) if ok else bad(r))], gens.circ_desc(circ))
        except NotRepresentable: c.skipped += 1

def states(c, n=20):
    """isometries: circuits with some inputs set to |+> or |0>, extracted as circuits with ancillas are out of domain;
    here diagrams with more gadgets than a circuit would have: parity phases before reduction"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 4)
        circ = Circuit(q)
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if r < .5: circ.add_gate(G.ParityPhase(gens.phase(rng, 'T'), *rng.sample(range(q), rng.randint(1, q))))
            elif r < .7: circ.add_gate(gens.rand_gate(rng, q, 'cliff', 'T'))
            else: circ.add_gate(G.HAD(rng.randrange(q)))
        history(c, 'extract_gadgets', circ, 'T', rng.choice(['full_reduce', 'full_reduce', 'to_graph_like']), [ext(rng)])

def layers(c, n=30):
    """dense layers of CZ gates and of CNOTs between Hadamards on up to eight qubits: overlapping CZs, elimination of blocks without an extractable row"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([5, 6, 6, 7, 7, 8]); circ = Circuit(q)
        for _ in range(rng.randint(1, 3)):
            p = rng.choice([.3, .6, .85])
            if rng.random() < .7:
                for a in range(q):
                    for b in range(a):
                        if rng.random() < p: circ.add_gate('CZ', a, b)
            else:
                for _ in range(rng.randint(q, 3 * q)): circ.add_gate('CNOT', *rng.sample(range(q), 2))
            for a in range(q):
                if rng.random() < .8: circ.add_gate(rng.choice([G.HAD(a), G.HAD(a), G.ZPhase(a, gens.phase(rng, 'T')), G.XPhase(a, F(1, 2))]))
        oc = rng.choice([0, 1, 2, 3])
        history(c, 'layers', circ, 'T', rng.choice(['full_reduce', 'interior_clifford_simp', 'clifford_simp', 'to_graph_like' if q < 7 else 'full_reduce']),
                [('extract_circuit(optimize_cnots=%d,optimize_czs=%s)' % (oc, z), lambda h, z=z: E.extract_circuit(h, optimize_cnots=oc, optimize_czs=z), False) for z in (True, rng.random() < .5)])

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 8 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c04', [('main_extract', dict(n=100 * k)), ('lookahead', dict(n=12 * k)), ('lookahead_base', dict(n=30 * k)), ('simple', dict(n=40 * k)), ('cliffordnf', dict(n=30 * k)), ('states', dict(n=25 * k)), ('layers', dict(n=30 * k))], b))
    return chk.finish('seeded random circuits, simplified and extracted with every option; non-trivial when recorded objects are distinct')
