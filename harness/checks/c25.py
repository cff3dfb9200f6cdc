"""C25: strategies terminate in their normal forms, and never increase the number of non-Clifford phases."""
import core, gens, random
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx import simplify as S, rules as R

def rec(g):
    r, ids = core.graph_plain(g); r.pop('ord', None); return r

ITER = {'spider': S.spider_iter, 'id': S.id_iter, 'pivot': S.pivot_iter, 'lcomp': S.lcomp_iter, 'pivot_boundary': S.pivot_boundary_iter,
        'pivot_gadget': S.pivot_gadget_iter, 'gadget': S.gadget_iter, 'bialg': S.bialg_iter, 'interior': S.interior_clifford_iter,
        'clifford': S.clifford_iter, 'full': S.full_reduce_iter}
FUN = {'spider': S.spider_simp, 'id': S.id_simp, 'pivot': S.pivot_simp, 'lcomp': S.lcomp_simp, 'pivot_boundary': S.pivot_boundary_simp,
       'pivot_gadget': S.pivot_gadget_simp, 'gadget': S.gadget_simp, 'supplementarity': S.supplementarity_simp, 'copy': S.copy_simp, 'bialg': S.bialg_simp,
       'phase_free': S.phase_free_simp, 'interior': S.interior_clifford_simp, 'clifford': S.clifford_simp, 'full': S.full_reduce,
       'reduce_scalar': S.reduce_scalar, 'to_gh': S.to_gh, 'to_graph_like': S.to_graph_like}
ANY = ['spider', 'id', 'interior', 'interior', 'clifford', 'clifford', 'full', 'full', 'full', 'to_gh', 'to_graph_like']
GL = ['pivot', 'lcomp', 'pivot_boundary', 'pivot_gadget', 'gadget', 'supplementarity', 'reduce_scalar', 'copy']
AGAIN = ['interior', 'clifford', 'full', 'reduce_scalar', 'to_gh', 'spider', 'id', 'lcomp', 'pivot', 'gadget']

def run_iter(g, nm):
    k = 0
    for _, s in ITER[nm](g):
        k += 1
        if k > 400: raise RuntimeError('no end after 400 steps')
    return -1

def strategy(c, g, nm, it=False):
    """one event: run a strategy on a copy, twice where that should change nothing"""
    h = g.copy() if c.rng.random() < .6 else copy_exact(g)
    b = rec(h); kw = {} if nm in ('to_graph_like',) else dict(quiet=True)
    run = (lambda x: run_iter(x, nm)) if it else (lambda x: FUN[nm](x, **kw))
    ok, r = call(run, h, _limit=30); c.note(('steps of ' if it else '') + nm)
    e = dict(a='strategy', nm=nm, exc='' if ok else r, b=b, g=b, r=-1, again=[], r2=0)
    if not ok: return e, None
    try: e['g'] = rec(h)
    except core.BadObject as x: e['exc'] = 'illegal object: %s' % x; return e, None
    e['r'] = r if isinstance(r, int) else -1
    if nm in AGAIN:
        h2 = h.clone() if hasattr(h, 'clone') else h.copy()
        ok, r2 = call(run, h2, _limit=30)
        if not ok: e['exc'] = r2; return e, None
        e['again'] = [rec(h2)]; e['r2'] = r2 if isinstance(r2, int) else 0
    return e, h

def copy_exact(g):
    import copy
    return copy.deepcopy(g)

def events(c, g, nms, its=0):
    ev = []; rng = c.rng
    for nm in nms:
        e, h = strategy(c, g, nm, nm in ITER and rng.random() < its); ev.append(e)
        if h is not None and rng.random() < .3:
            st = rng.random() < .5; ok, r = call(S.is_graph_like, h, st)
            ev.append(dict(a='is_graph_like', exc='' if ok else r, g=rec(h), strict=st, ans=bool(r) if ok else False)); c.note('is_graph_like')
    for st in (False, True):
        if rng.random() < .4:
            ok, r = call(S.is_graph_like, g, st); c.note('is_graph_like')
            ev.append(dict(a='is_graph_like', exc='' if ok else r, g=rec(g), strict=st, ans=bool(r) if ok else False))
    if rng.random() < .3:
        ok, r = call(S.tcount, g); c.note('tcount')
        ev.append(dict(a='tcount', exc='' if ok else r, g=rec(g), ans=r if ok else -1))
    return ev

def enumerated(c, recs, per):
    for i, r in enumerate(recs):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        k = len(r['inp'] + r['out']); outs = {j for j in range(k) if c.rng.random() < .5}
        g = gens.build(r, outs=outs)
        c.traces.append(dict(site='enumerated', desc=gens.dump(g), ev=events(c, g, c.rng.sample(ANY + GL, per), .2)))

def diagram(rng):
    k = rng.choice(['zx', 'zx', 'gl', 'gl', 'gadget', 'star', 'twin', 'circ', 'circ', 'hub'])
    phk = rng.choice(['cliff', 'cliff', 'T', 'any', 'nonc'])
    s = rng.random() < .25
    ni, no = (0, 0) if s else (rng.randint(0, 4), rng.randint(0, 4))
    if k == 'zx': return gens.rand_diagram(rng, rng.randint(1, 14), ni, no, phk, dens=rng.choice([.15, .3, .5])), k
    if k == 'gl': return gens.rand_diagram(rng, gens.size(rng, 1, 16, 30), ni, no, phk, gl=True, dens=rng.choice([.15, .3, .5, .7])), k
    if k == 'gadget': return gens.gadget_diagram(rng, rng.randint(1, 5), rng.randint(1, 7), phk, nin=None), k
    if k == 'star': return gens.star_diagram(rng, phk), k
    if k == 'twin': return gens.twin_diagram(rng), k
    if k == 'hub': return hubs(rng, phk, s), k
    g = gens.rand_circuit(rng, rng.randint(1, 6), rng.randint(2, 60), rng.choice(['cliff', 'T', 'zx', 'cnotT']), phk if phk != 'nonc' else 'T').to_graph()
    if s:
        g.apply_state('0' * g.num_inputs()); g.apply_effect(''.join(rng.choice('01+-') for _ in range(g.num_outputs())))
    return g, k

def hubs(rng, phk, scalar):
    """spiders with boundaries, and many gadgets on few target sets, with Pauli hubs"""
    g = zx.Graph(); n = rng.randint(1, 5); t = [g.add_vertex(VT.Z, i, 2, phase=gens.phase(rng, phk)) for i in range(n)]
    i, o = [], []
    if not scalar:
        for j, v in enumerate(t):
            for k in range(rng.choice([0, 1, 1, 2, 2, 3])):
                b = g.add_vertex(VT.BOUNDARY, j, 0 if k % 2 else 5); g.add_edge((b, v), rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD])); (i if k % 2 else o).append(b)
    sets = [rng.sample(t, rng.randint(1, n)) for _ in range(2)]
    for _ in range(rng.randint(1, 6)):
        h = g.add_vertex(VT.Z, -1, 3, phase=rng.choice([0, 0, 1])); l = g.add_vertex(VT.Z, -2, 3, phase=gens.phase(rng, rng.choice(['T', 'nonc', 'cliff', 'any'])))
        g.add_edge((h, l), ET.HADAMARD)
        for v in rng.choice(sets): g.add_edge((h, v), ET.HADAMARD)
    for a in range(n):
        for b in range(a):
            if rng.random() < .3: g.add_edge((t[a], t[b]), ET.HADAMARD)
    g.set_inputs(tuple(i)); g.set_outputs(tuple(o))
    return g

def random_runs(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        try:
            g, k = diagram(rng)
            nms = rng.sample(ANY, 3)
            ev = events(c, g, nms, .25); desc = gens.dump(g)
            h = g.copy(); S.to_gh(h); S.spider_simp(h, quiet=True)
            if rng.random() < .5: S.to_graph_like(h)
            ev += events(c, h, rng.sample(GL, 2) + (['reduce_scalar'] if h.num_inputs() + h.num_outputs() == 0 else []), .25)
            c.traces.append(dict(site='random %s' % k, desc=desc, ev=ev))
        except NotRepresentable: c.skipped += 1

def phase_free(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(2, 10), rng.randint(0, 3), rng.randint(0, 3), 'cliff', phad=0 if rng.random() < .7 else .15, dens=rng.choice([.2, .4, .6]), mix=False)
        for v in g.vertices():
            if rng.random() < .95: g.set_phase(v, 0)
        ev = events(c, g, ['phase_free', 'bialg', rng.choice(['spider', 'id'])], .25)
        c.traces.append(dict(site='phase-free', desc=gens.dump(g), ev=ev))

def circuits(c, n):
    """teleportation and the Clifford normal form"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ = gens.rand_circuit(rng, rng.randint(1, 6), rng.randint(1, 70), rng.choice(['cliff', 'T', 'T', 'zx', 'cnotT']), rng.choice(['T', 'T', 'cliff', 'any']))
        g = circ.to_graph(); desc = gens.circ_desc(circ); ev = []
        ok, r = call(S.teleport_reduce, g); c.note('teleport_reduce')
        f = g.copy(); okf, x = call(S.full_reduce, f)
        e = dict(a='teleport', exc='' if ok else r, b=rec(g), g=rec(g), full=rec(g))
        if ok: e['g'] = rec(r)
        if not okf: e['exc'] = x
        else: e['full'] = rec(f)
        ev.append(e)
        cl = gens.rand_circuit(rng, rng.randint(1, 5), rng.randint(0, 50), 'cliff', 'cliff').to_graph()
        b = rec(cl); ok, r = call(S.to_clifford_normal_form_graph, cl); c.note('to_clifford_normal_form_graph')
        e = dict(a='strategy', nm='clifford_nf', exc='' if ok else r, b=b, g=b, r=-1, again=[], r2=0, rows=[0] * b['n'], qb=[0] * b['n'])
        if ok:
            e['g'], ids = core.graph_plain(cl); inv = sorted(cl.vertices(), key=lambda v: ids[v])
            e['rows'] = [int(cl.row(v)) if cl.row(v) == int(cl.row(v)) else -1 for v in inv]; e['qb'] = [int(cl.qubit(v)) for v in inv]
        ev.append(e)
        c.traces.append(dict(site='circuits', desc=desc, ev=ev))

def main(chk):
    q = chk.tier == 'quick'
    recs = gens.spec_diagrams(chk)
    rng = random.Random(chk.seed)
    if q: recs = [r for r in recs if r['n'] < 4] + rng.sample([r for r in recs if r['n'] >= 4], 900)
    t = chk.gen('checks.c25', [('enumerated', dict(recs=recs, per=4 if q else 16)), ('random_runs', dict(n=70 if q else 2500)),
                               ('phase_free', dict(n=30 if q else 600)), ('circuits', dict(n=40 if q else 900))], 12 if q else 200)
    chk.validate_with('NormalTrace.tla', 'NormalTrace.cfg', t)
    return chk.finish('a case is non-trivial when it is not identical to another')
