"""C05: generalised flow against modules Gflow, GflowGen and GflowTrace; diagrams with a flow are isometries."""
import core, tlc, gens, random
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx.gflow import gflow
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx import simplify as S

def ask(c, site, g, desc=None, meaning=False):
    rec, ids = core.graph_plain(g); at = {v: i + 1 for i, v in enumerate(ids)} if not isinstance(ids, dict) else ids
    rec.pop('ord', None); before = gens.dump(g)
    ok, r = call(gflow, g); c.note(site)
    e = dict(a='gflow', exc='' if ok else r, g=rec, changed=gens.dump(g) != before, found=bool(ok and r is not None), l=[], f=[])
    if e['found']:
        try:
            l, f, _ = r
            e['l'] = [[at[v], int(k)] for v, k in l.items()]; e['f'] = [[at[v], [at[w] for w in s]] for v, s in f.items()]
        except Exception as x: e['exc'] = 'illegal answer: %s: %s' % (type(x).__name__, x)
    c.traces.append(dict(site=site, desc=desc or before, ev=[e], own=True))
    ni = len(g.inputs())
    if meaning and e['found'] and 0 < ni <= 4 and all(g.type(v) == VT.BOUNDARY for v in list(g.inputs()) + list(g.outputs())):
        try: o = core.gobj(g); c.add(site, core.cobj(zx.Circuit(ni)), [('a diagram with a flow is an isometry', 'prop', core.then(o, core.adj(o)))], before)
        except NotRepresentable: c.skipped += 1
    return e['found']

def graph(rng, x, how):
    """the open graph x as a diagram: with boundaries, or with spiders as inputs and outputs"""
    g = zx.Graph(rng.choice([None, None, 'multigraph']))
    if type(g).backend == 'multigraph': g.set_auto_simplify(rng.random() < .5)
    for _ in range(rng.choice([0, 0, 2])): g.add_vertex(VT.Z)
    junk = list(g.vertices()); order = list(range(1, x['n'] + 1)); rng.shuffle(order)
    vs = {v: g.add_vertex(VT.Z, v, 1, phase=gens.phase(rng, 'T')) for v in order}
    g.remove_vertices(junk)
    for a, b in x['ed']: g.add_edge((vs[a], vs[b]), ET.HADAMARD)
    inp, out = list(x['inp']), list(x['out']); rng.shuffle(inp); rng.shuffle(out)
    if how == 'spiders': g.set_inputs(tuple(vs[v] for v in inp)); g.set_outputs(tuple(vs[v] for v in out)); return g
    ends = [('i', v) for v in inp] + [('o', v) for v in out]; made = {}
    for e in rng.sample(ends, len(ends)):
        b = g.add_vertex(VT.BOUNDARY, e[1], 0 if e[0] == 'i' else 2); made[e] = b
        g.add_edge((b, vs[e[1]]), ET.HADAMARD if rng.random() < .3 else ET.SIMPLE)
    g.set_inputs(tuple(made['i', v] for v in inp)); g.set_outputs(tuple(made['o', v] for v in out)); return g

def enumerated(c, ms=(), sem=.1):
    rng = c.rng
    for i in range(c.shard, len(ms), c.nshards):
        if not c.more(): break
        ask(c, 'open graphs enumerated by TLC', graph(rng, ms[i], rng.choice(['boundaries', 'boundaries', 'spiders'])), None, rng.random() < sem)

def rand(c, n, big):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.randint(1, big); p = rng.choice([.2, .4, .6]); ed = [[a, b] for a in range(1, k + 1) for b in range(1, a) if rng.random() < p]
        x = rng.random()
        if x < .5:     # likely to have a flow: start from paths and add edges
            w = rng.randint(1, min(4, k)); ed = []; paths = [[] for _ in range(w)]
            for v in range(1, k + 1): paths[(v - 1) % w].append(v)
            for q in paths: ed += [[a, b] for a, b in zip(q, q[1:])]
            for _ in range(rng.randint(0, k)):
                a, b = rng.sample(range(1, k + 1), 2) if k > 1 else (1, 1)
                if a != b and abs((a - 1) // w - (b - 1) // w) <= rng.choice([0, 0, 1]) and [a, b] not in ed and [b, a] not in ed: ed.append([a, b])
            inp, out = [q[0] for q in paths], [q[-1] for q in paths]
            if rng.random() < .2: inp = inp[:-1]
        else: inp, out = rng.sample(range(1, k + 1), rng.randint(0, min(3, k))), rng.sample(range(1, k + 1), rng.randint(0, min(4, k)))
        ask(c, 'random open graphs', graph(rng, dict(n=k, ed=ed, inp=inp, out=out), rng.choice(['boundaries', 'spiders'])), None, rng.random() < .3)

def circuits(c, n):
    """diagrams of circuits have a flow, after every simplification that keeps it; so have the results of congruences"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ = gens.rand_circuit(rng, gens.size(rng, 1, 5, 7), gens.size(rng, 0, 25, 40), rng.choice(['T', 'cliff', 'cnotT', 'opt']), 'T'); g = circ.to_graph()
        how = rng.choice(['to_graph_like', 'interior_clifford_simp', 'clifford_simp', 'full_reduce', 'teleport_reduce', 'lcomp_simp', 'pivot_simp', 'remove an edge', 'remove an edge'])
        def f():
            nonlocal g
            if how == 'teleport_reduce': g = S.teleport_reduce(g); S.to_gh(g)
            if how in ('to_graph_like', 'lcomp_simp', 'pivot_simp', 'remove an edge', 'teleport_reduce'): S.to_graph_like(g)
            if how in ('interior_clifford_simp', 'clifford_simp', 'full_reduce', 'lcomp_simp', 'pivot_simp'): getattr(S, how)(g, quiet=True)
            if how == 'remove an edge':
                if rng.random() < .5: S.full_reduce(g, quiet=True)
                es = [e for e in g.edges() if g.edge_type(e) == ET.HADAMARD and all(g.type(v) == VT.Z for v in g.edge_st(e))]
                if es: g.remove_edge(rng.choice(es))
        with core.quiet() if hasattr(core, 'quiet') else open('/dev/null'): ok, r = call(f)
        if not ok or any(g.type(v) not in (VT.BOUNDARY, VT.Z) for v in g.vertices()): continue
        try: ask(c, 'circuits, ' + how, g, gens.circ_desc(circ) + ' ## ' + gens.dump(g), rng.random() < .5)
        except NotRepresentable: c.skipped += 1

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in (2, 3, 4): ms += [x for x in tlc.printed(chk.model('GflowGen.tla', 'GflowGen%d.cfg' % k, workers=4)) if 'ed' in x]
    chk.extra['open_graphs_enumerated_by_TLC'] = len(ms)
    if q: random.Random(chk.seed).shuffle(ms); ms = ms[:5000]
    t = chk.gen('checks.c05', [('enumerated', dict(ms=ms)), ('rand', dict(n=120 if q else 3000, big=9 if q else 12)), ('circuits', dict(n=40 if q else 1200))], 12 if q else 250)
    chk.validate([x for x in t if 'own' not in x])
    chk.validate_with('GflowTrace.tla', 'GflowTrace.cfg', [x for x in t if 'own' in x], shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
