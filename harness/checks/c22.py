"""C22: local search keeps the linear map, and reports the best it has seen."""
import core, gens, random
import numpy as np
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.local_search import congruences as C, scores as S, simulated_annealing as A, genetic as G

def unscaled(g):
    if not g.scalar.is_zero: g = g.copy(); g.scalar = zx.graph.scalar.Scalar()
    return core.gobj(g)

def moves(g):
    """the moves that are possible: congruences of graph-like diagrams"""
    m = [('lc_cong', v) for v in g.vertices() if C.is_lc_vertex(g, v)] + [('lc_cong2', v) for v in g.vertices() if g.type(v) == VT.Z]
    m += [('pivot_cong',) + tuple(g.edge_st(e)) for e in g.edges() if C.is_pivot_edge(g, e)]
    m += [('unfuse', v) for v in g.vertices() if g.type(v) == VT.Z]
    return m

def apply(g, m):
    return getattr(C, m[0])(g, *m[1:])

def walk(c, g, rng, n, site, desc):
    st = unscaled(g); ev = []
    for _ in range(n):
        ms = moves(g)
        if not ms: break
        k = rng.random()
        if k < .75 or any(x[0] == 'unfuse' for x in ev): m = rng.choice([x for x in ms if x[0] != 'unfuse'] or ms)
        else: m = rng.choice(ms)
        if k > .85 and m[0] != 'unfuse':
            kind = rng.choice(['rand_lc', 'rand_pivot']); m = (kind,); np.random.seed(rng.randrange(2**32))
            ok, r = call(C.apply_rand_lc if kind == 'rand_lc' else C.apply_rand_pivot, g)
        else: ok, r = call(apply, g, m)
        c.note(m[0]); ev.append((m[0], 'prop', export_result(unscaled, g) if ok else bad(r)))
        if not ok: break
        if m[0] == 'unfuse': break      # leaves the graph-like diagrams
    if ev: c.add(site, st, ev, desc)

def enumerated(c, recs, per):
    rng = c.rng
    for i, r in enumerate(recs):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        g = gens.build(r); ms = moves(g); st = unscaled(g); ev = []
        rng.shuffle(ms)
        for m in ms[:per]:
            h = g.copy(); ok, x = call(apply, h, m); c.note(m[0])
            ev.append((m[0], 'prop', export_result(unscaled, h) if ok else bad(x)))
        if ev: c.add('enumerated', st, ev, gens.dump(g))

def diagram(rng):
    k = rng.choice(['gl', 'gl', 'gadget', 'star', 'twin', 'circ'])
    phk = rng.choice(['cliff', 'T', 'any'])
    if k == 'gl': return gens.rand_diagram(rng, gens.size(rng, 2, 7, 13), rng.randint(0, 2), rng.randint(0, 2), phk, gl=True, dens=rng.choice([.3, .5, .7]))
    if k == 'gadget': return gens.gadget_diagram(rng, rng.randint(1, 4), rng.randint(1, 3), phk)
    if k == 'star': return gens.star_diagram(rng, phk)
    if k == 'twin': return gens.twin_diagram(rng)
    g = gens.rand_circuit(rng, gens.size(rng, 1, 4, 6), gens.size(rng, 2, 20, 50), rng.choice(['cliff', 'T', 'zx']), phk).to_graph()
    zx.simplify.to_graph_like(g)
    if rng.random() < .5: zx.simplify.interior_clifford_simp(g, quiet=True)
    return g

def walks(c, n):
    for i in range(n):
        if not c.more(): break
        try:
            g = diagram(c.rng); walk(c, g, c.rng, c.rng.randint(1, 5), 'walk', gens.dump(g))
        except NotRepresentable: c.skipped += 1

def circuit(rng):
    c = gens.rand_circuit(rng, rng.randint(1, 4), rng.randint(0, 22), rng.choice(['cliff', 'T', 'cnotT', 'opt']), rng.choice(['T', 'cliff', 'any']))
    return c

def scores_of(c, circ, w):
    b = circ.to_basic_gates(); ok, r = call(S.wgc, circ, **({} if w is None else dict(two_qb_weight=w)))
    return [dict(a='score', exc='' if ok else r, score=r if ok else 0, w=10 if w is None else w, c=core.circ_rec(b))]

def search(c, n):
    """annealing and evolution; two kinds of histories: maps (judged by RewriteTrace) and scores"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        circ = circuit(rng); g = circ.to_graph(); desc = gens.circ_desc(circ)
        np.random.seed(rng.randrange(2**32)); random.seed(rng.randrange(2**32))
        sev = []
        try:
            sev += scores_of(c, circ, rng.choice([None, 1, 3, 10]))
            if rng.random() < .5:
                zx.full_reduce(g) if rng.random() < .7 else zx.simplify.to_graph_like(g)
                st = unscaled(g); it = rng.randint(0, 6); before = core.gobj(g)
                kw = dict(iters=it, temp=rng.choice([25, 0, 1]), cool=rng.choice([.005, .3]), full_reduce_prob=rng.choice([.1, .6, 1]), reset_prob=rng.choice([0, .5]), quiet=True)
                sc, safe = rng.choice([(S.g_wgc, False), (S.g_wgc, False), (lambda x: S.g_wgc(x, g_simplify=True), True), (lambda x: S.g_wgc(x, two_qb_weight=2, c_simplify=False), False), (lambda x: x.num_edges(), True)])
                first = sc(g.copy())
                ok, r = call(A.anneal, g, score=sc, **kw); c.note('anneal')
                ev = [('anneal', 'prop', export_result(unscaled, r[0]) if ok else bad(r)), ('argument', 'same', export_result(core.gobj, g))]; site = 'anneal, score of any diagram' if safe else 'anneal'
                if ok: sev.append(dict(a='anneal', exc='', iters=it, best=list(r[1]), first=first, final=sc(r[0].copy())))
                c.add(site, before, ev[1:], desc); c.add(site, st, ev[:1], desc)
            else:
                st = core.cobj(circ); gens_, nm = rng.randint(0, 3), rng.randint(2, 5)
                acts = rng.choice([None, [G.rand_pivot], [G.rand_lc]])
                score = rng.choice([G.default_score, G.default_score, lambda m: m.g_curr.num_edges(), lambda m: S.wgc(m.c_curr, 1)])
                o = G.GeneticOptimizer(**(dict(actions=list(acts)) if acts else {}), score=score); o.quiet = True
                if rng.random() < .3:
                    ok, r = call(o.evolve, g, nm, gens_); c.note('evolve')
                    c.add('evolve', st, [('evolve', 'prop', export_result(unscaled, r) if ok else bad(r))], desc)
                else:
                    ok, r = call(o._evolve, g, nm, gens_); c.note('evolve'); ev = []
                    if ok:
                        best, gen, res = r; m0 = G.Mutant(o.c_orig, o.g_orig); first = score(m0)
                        ev = [('evolve', 'prop', export_result(unscaled, res)), ('start circuit', 'prop', export_result(core.cobj, o.c_orig))]
                        for k, m in enumerate(o.mutants[:3]): ev += [('member', 'prop', export_result(unscaled, m.g_curr)), ('member circuit', 'prop', export_result(core.cobj, m.c_curr))]
                        c.add('evolve', st, ev, desc)
                        if score is not G.default_score and len(gen) == gens_ + 1:
                            e = dict(a='evolve', exc='', gens=gens_, best=list(best), gen=list(gen), first=first, final=res.num_edges() if score.__code__.co_consts is not None and 'g_curr' in score.__code__.co_names else best[-1])
                            sev.append(e)
                    else: c.add('evolve', st, [('evolve', 'prop', bad(r))], desc)
            c.traces.append({'site': 'scores', 'desc': desc, 'ev': sev, 'scores': True})
        except NotRepresentable: c.skipped += 1

def known(c):
    """the recorded finding"""
    if c.shard: return
    circ = zx.Circuit(2); circ.add_gate('CZ', 0, 1); g = circ.to_graph(); zx.full_reduce(g); st = unscaled(g)
    ok, r = call(A.anneal, g, iters=3, full_reduce_prob=0, quiet=True); c.note('anneal')
    c.add('anneal', st, [('anneal', 'prop', export_result(unscaled, r[0]) if ok else bad(r))], gens.circ_desc(circ))

def select(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = rng.choice([2, 3, 4, 5, 8, 10, 13, 21]); circ = zx.Circuit(1)
        o = G.GeneticOptimizer(); o.n_mutants = k
        o.mutants = [G.Mutant(circ, circ.to_graph()) for _ in range(k)]
        old = [rng.randint(0, 30) for _ in range(k)]
        for m, s in zip(o.mutants, old): m.score = s
        ev = []
        for meth in rng.sample(['tournament', 'top_half', 'top_n'], 2):
            random.seed(rng.randrange(2**32)); old = [m.score for m in o.mutants]
            ok, r = call(o.select, meth); c.note(meth)
            ev.append(dict(a='select', exc='' if ok else r, method=meth, old=old, new=[m.score for m in o.mutants], distinct=len({id(m) for m in o.mutants}) == len(o.mutants)))
            if not ok: break
        c.traces.append({'site': 'select', 'desc': str(k), 'ev': ev, 'scores': True})

def main(chk):
    q = chk.tier == 'quick'
    recs = gens.spec_diagrams(chk)
    rng = random.Random(chk.seed); 
    if q: recs = [r for r in recs if r['n'] < 4] + rng.sample([r for r in recs if r['n'] >= 4], 900)
    t = chk.gen('checks.c22', [('enumerated', dict(recs=recs, per=4 if q else 30)), ('walks', dict(n=70 if q else 1500)), ('search', dict(n=20 if q else 300)), ('select', dict(n=12 if q else 100)), ('known', {})], 12 if q else 250)
    chk.validate([x for x in t if 'scores' not in x])
    chk.validate_with('LocalSearchTrace.tla', 'LocalSearchTrace.cfg', [x for x in t if 'scores' in x])
    return chk.finish('a case is non-trivial when it is not identical to another')
