"""C01: simplification strategies preserve the linear map, scalar included."""
from fractions import Fraction as F
import core, gens
from framework import *
import pyzx as zx
from pyzx import simplify as S
from pyzx.utils import VertexType as VT, EdgeType as ET

# strategies that may be applied to any ZX-diagram
ANY = ['spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce', 'to_gh', 'to_rg',
       'to_graph_like', 'phase_free_simp', 'bialg_simp']
# strategies defined on graph-like diagrams
GL = ['pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'gadget_simp', 'copy_simp', 'supplementarity_simp', 'reduce_scalar']
QUIET_ARG = {'to_rg': False, 'to_graph_like': False, 'to_clifford_normal_form_graph': False}
ITERS = ['spider_iter', 'id_iter', 'pivot_iter', 'lcomp_iter', 'pivot_gadget_iter', 'pivot_boundary_iter', 'gadget_iter', 'clifford_iter',
         'interior_clifford_iter', 'full_reduce_iter', 'bialg_iter']

def run(name, g):
    f = getattr(S, name)
    if QUIET_ARG.get(name, True): return f(g, quiet=True)
    return f(g)

def apply_chain(c, site, g, names):
    """one history: apply the strategies one after the other on the same graph"""
    try: start = core.gobj(g)
    except NotRepresentable: c.skipped += 1; return
    desc = gens.dump(g) if len(list(g.vertices())) < 30 else ''
    ev = []
    try:
        for nm in names:
            c.note(nm)
            ok, r = call(run, nm, g)
            if not ok: ev.append((nm, 'eq', bad(r))); break
            ev.append((nm, 'eq', export_result(core.gobj, g, strict=core.tphases(start['g']))))
    except NotRepresentable: c.skipped += 1
    if ev: c.add(site, start, ev, desc)

def random_zx(c, n=200):
    """arbitrary small diagrams, one strategy each, and then a second one"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 7), rng.randint(0, 3), rng.randint(0, 3), phk=rng.choice(['pauli', 'cliff', 'T', 'T', 'any']),
                              dens=rng.choice([.25, .4, .6]), gl=rng.random() < .5, phad=rng.choice([.2, .5, .8]), ptype=rng.choice([.3, .5, .8, 1]))
        apply_chain(c, 'simplify', g, [rng.choice(ANY), rng.choice(ANY)])

def random_gl(c, n=200):
    """graph-like diagrams on which the graph-theoretic rules fire often"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(2, 10), rng.randint(0, 3), rng.randint(0, 3), phk=rng.choice(['pauli', 'cliff', 'T', 'any']),
                              dens=rng.choice([.2, .35, .5]), gl=True)
        apply_chain(c, 'simplify', g, [rng.choice(GL + ['interior_clifford_simp', 'clifford_simp', 'full_reduce'])])

def scalars(c, n=150):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        nm = rng.choice(['reduce_scalar', 'full_reduce', 'full_reduce', 'clifford_simp', 'supplementarity_simp', 'gadget_simp'])
        g = gens.rand_diagram(rng, rng.randint(1, 9), 0, 0, phk=rng.choice(['pauli', 'cliff', 'T', 'any']), dens=rng.choice([.25, .5]),
                              gl=nm not in ('full_reduce', 'clifford_simp') or rng.random() < .5)
        apply_chain(c, 'simplify', g, [nm])

MATCHF_V = ['id_simp', 'lcomp_simp', 'gadget_simp', 'pivot_gadget_simp', 'spider_simp', 'pivot_simp', 'pivot_boundary_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce']
def filtered(c, n=60):
    """strategies restricted by a match filter"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(2, 9), rng.randint(0, 3), rng.randint(0, 3), phk=rng.choice(['pauli', 'cliff', 'T']), dens=rng.choice([.25, .4]), gl=True)
        nm = rng.choice(MATCHF_V)
        keep = set(v for v in g.vertices() if rng.random() < .6)
        mf = lambda x: (set(x) <= keep) if isinstance(x, tuple) else x in keep
        try:
            start = core.gobj(g); desc = gens.dump(g) + ' keep=%s' % sorted(keep)
            ok, r = call(lambda: getattr(S, nm)(g, matchf=mf, quiet=True))
            o = bad(r) if not ok else export_result(core.gobj, g, strict=core.tphases(start['g']))
            c.note('matchf:' + nm); c.add('simplify_matchf', start, [(nm, 'eq', o)], desc)
        except NotRepresentable: c.skipped += 1

def gadgets(c, n=150):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        if rng.random() < .3:
            g = gens.twin_diagram(rng, rng.choice(['nonc', 'any', 'T'])); nm = ['supplementarity_simp', rng.choice(['supplementarity_simp', 'reduce_scalar', 'full_reduce'])]
            apply_chain(c, 'simplify', g, nm); continue
        if rng.random() < .2:
            g = gens.star_diagram(rng, 'cliff'); nm = rng.choice(['pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'interior_clifford_simp'])
            apply_chain(c, 'simplify', g, [nm]); continue
        if rng.random() < .1:
            g = gens.salt(rng, gens.rand_diagram(rng, rng.randint(1, 7), rng.randint(0, 2), rng.randint(0, 2), phk='T', dens=.4, gl=True)); apply_chain(c, 'simplify', g, ['copy_simp']); continue
        g = gens.gadget_diagram(rng, rng.randint(1, 4), rng.randint(1, 5), phk=rng.choice(['T', 'any', 'nonc', 'cliff']))
        nm = rng.choice([['gadget_simp'], ['supplementarity_simp'], ['full_reduce'], ['reduce_scalar'], ['pivot_gadget_simp', 'gadget_simp'], ['gadget_simp', 'full_reduce']])
        apply_chain(c, 'simplify', g, nm)

def circuits(c, n=120):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 5)
        circ = gens.rand_circuit(rng, q, rng.randint(3, 40), kind=rng.choice(['zx', 'T', 'cliff', 'full', 'cnotT']), phk=rng.choice(['T', 'cliff', 'any']))
        ok, g = call(circ.to_graph)
        if not ok: continue
        if any(g.type(v) == VT.H_BOX for v in g.vertices()): 
            circ = circ.to_basic_gates(); g = circ.to_graph()
        apply_chain(c, 'simplify', g, rng.choice([['full_reduce'], ['clifford_simp', 'full_reduce'], ['interior_clifford_simp'], ['to_graph_like', 'full_reduce'],
                                                  ['to_rg', 'full_reduce'], ['to_graph_like', 'pivot_simp', 'lcomp_simp', 'pivot_gadget_simp'], ['to_graph_like', 'reduce_scalar'], ['phase_free_simp']]))

def cliffnf(c, n=80):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ = gens.rand_circuit(rng, rng.randint(1, 5), rng.randint(0, 40), kind='cliff', phk='cliff')
        g = circ.to_graph()
        apply_chain(c, 'simplify', g, ['to_clifford_normal_form_graph'])

def iters(c, n=60):
    """the *_iter generators: every yielded diagram is an observable intermediate state"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        if rng.random() < .5:
            g = gens.rand_diagram(rng, rng.randint(2, 7), rng.randint(0, 3), rng.randint(0, 3), phk=rng.choice(['cliff', 'T']), gl=True)
        else:
            g = gens.rand_circuit(rng, rng.randint(1, 4), rng.randint(3, 20), kind='zx').to_graph()
        nm = rng.choice(ITERS)
        if nm in ('pivot_iter', 'lcomp_iter', 'pivot_gadget_iter', 'pivot_boundary_iter', 'gadget_iter'): S.to_graph_like(g)
        start = core.gobj(g); desc = gens.dump(g)
        ev = []
        def go():
            k = 0
            for st in getattr(S, nm)(g):
                k += 1
                ev.append((nm + ':' + str(st[1]), 'eq', export_result(core.gobj, st[0], strict=core.tphases(start['g']))))
                if k > 60: break
        try:
            ok, r = call(go)
            if not ok: ev.append((nm, 'eq', bad(r)))
        except NotRepresentable: c.skipped += 1
        c.note(nm)
        if ev: c.add('simplify_iter', start, ev, desc)

def wide(c, n=20):
    """circuits on more qubits and larger diagrams"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        r = rng.random()
        if r < .7:
            circ = gens.rand_circuit(rng, rng.randint(6, 8), rng.randint(20, 90), kind=rng.choice(['T', 'T', 'cliff', 'cnotT', 'zx']), phk=rng.choice(['T', 'cliff', 'any'])); g = circ.to_graph()
        elif r < .9: g = gens.rand_diagram(rng, rng.randint(11, 18), rng.randint(0, 3), rng.randint(0, 3), phk=rng.choice(['cliff', 'T', 'T', 'any']), dens=rng.choice([.15, .25, .4]), gl=rng.random() < .7)
        else: g = gens.gadget_diagram(rng, rng.randint(4, 6), rng.randint(5, 9), phk=rng.choice(['T', 'any', 'nonc']))
        if any(g.type(v) == VT.H_BOX for v in g.vertices()): continue
        apply_chain(c, 'simplify', g, rng.choice([['full_reduce'], ['full_reduce'], ['interior_clifford_simp', 'clifford_simp', 'full_reduce'], ['to_graph_like', 'pivot_gadget_simp', 'gadget_simp'], ['to_graph_like', 'pivot_boundary_simp', 'lcomp_simp'], ['clifford_simp', 'to_rg', 'full_reduce']]))

def symbolic(c, n=40):
    """diagrams with symbolic phases, judged at an instance of the variables"""
    from pyzx.symbolic import new_var
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(2, 7), rng.randint(0, 2), rng.randint(0, 2), phk='cliff', gl=True)
        tb = {'a': False, 'b': False, 'c': False, 's': True}
        vs = [v for v in g.vertices() if g.type(v) != VT.BOUNDARY]
        for v in vs:
            if rng.random() < .5:
                x = new_var(rng.choice('abc'), tb)
                y = new_var('s', tb)
                g.set_phase(v, rng.choice([x, x + F(1, 2), y, y * 1 + F(1), x + y, 2 * x]))
        nm = rng.choice(['spider_simp', 'id_simp', 'pivot_simp', 'to_gh', 'to_rg', 'to_graph_like'])
        try:
            start = core.gobj(g); desc = gens.dump(g)
            ok, r = call(run, nm, g)
            rel = 'eq'
            if ok and g.scalar.is_unknown: rel = 'prop'; g.scalar = type(g.scalar)()
            c.note('symbolic:' + nm)
            c.add('simplify_symbolic', start, [(nm, rel, bad(r) if not ok else export_result(core.gobj, g))], desc)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 6 * (1 if chk.tier == 'quick' else 10)
    jobs = [('random_zx', dict(n=130 * k)), ('random_gl', dict(n=120 * k)), ('scalars', dict(n=70 * k)), ('gadgets', dict(n=90 * k)),
            ('circuits', dict(n=60 * k)), ('cliffnf', dict(n=20 * k)), ('iters', dict(n=25 * k)), ('symbolic', dict(n=30 * k)), ('filtered', dict(n=40 * k)), ('wide', dict(n=14 * k))]
    tr = chk.gen('checks.c01', jobs, b)
    chk.validate(tr)
    return chk.finish('seeded random diagrams, gadget diagrams and circuits; a history is non-trivial when its recorded objects are distinct from every other history')
