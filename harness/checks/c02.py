"""C02: single rewrite rules preserve the linear map wherever they match."""
from fractions import Fraction as F
import core, gens
from framework import *
import pyzx as zx
from pyzx import rules as R, basicrules as B, editor_actions as ED
from pyzx.utils import VertexType as VT, EdgeType as ET

# (name, matcher, rule, graph-like only, matches may be subset)
RULES = [
 ('bialg', R.match_bialg, R.bialg, False, True), ('bialg_parallel', R.match_bialg_parallel, R.bialg, False, True),
 ('spider', R.match_spider, R.spider, False, True), ('spider_parallel', R.match_spider_parallel, R.spider, False, True),
 ('pivot', R.match_pivot, R.pivot, True, True), ('pivot_parallel', R.match_pivot_parallel, R.pivot, True, True),
 ('pivot_gadget', R.match_pivot_gadget, R.pivot, True, False), ('pivot_boundary', R.match_pivot_boundary, R.pivot, True, False),
 ('lcomp', R.match_lcomp, R.lcomp, True, True), ('lcomp_parallel', R.match_lcomp_parallel, R.lcomp, True, True),
 ('ids', R.match_ids, R.remove_ids, False, True), ('ids_parallel', R.match_ids_parallel, R.remove_ids, False, True),
 ('gadgets', R.match_phase_gadgets, R.merge_phase_gadgets, True, False),
 ('supplementarity', R.match_supplementarity, R.apply_supplementarity, True, True),
 ('copy', R.match_copy, R.apply_copy, True, True),
]

from checks import c03_gens as c03

def rec(c, site, g, start, ev, name, ok, r, desc, rel='eq'):
    strict = core.tphases(start['g'])
    if not ok and 'unreducible parallel edge' in r:     # not representable in a simple graph: refused with a message
        c.note('refused:' + name); raise NotRepresentable(r)
    if not ok: ev.append((name, rel, bad(r))); return False
    ev.append((name, rel, export_result(core.gobj, g, strict=strict))); return True

def rule_graph(rng, name, gl, phk=None):
    phk = phk or rng.choice(['pauli', 'cliff', 'T', 'any'])
    if name == 'gadgets': return gens.gadget_diagram(rng, gens.size(rng, 1, 4, 6), gens.size(rng, 2, 5, 9), phk=phk)
    if name == 'supplementarity': return gens.twin_diagram(rng, rng.choice(['nonc', 'any', 'T']))
    if name == 'copy':
        return gens.salt(rng, gens.rand_diagram(rng, rng.randint(1, 6), rng.randint(0, 2), rng.randint(0, 2), phk=phk, dens=.4, gl=True))
    if name.startswith(('pivot', 'lcomp')) and rng.random() < .4: return gens.star_diagram(rng, 'pauli' if name.startswith('pivot') else 'cliff')
    if name.startswith('bialg'):
        return bialg_graph(rng)
    return gens.rand_diagram(rng, gens.size(rng, 2, 7, 14), rng.randint(0, 3), rng.randint(0, 3), phk=phk, dens=rng.choice([.25, .4, .6]), gl=gl,
                             phad=rng.choice([.2, .5]), ptype=rng.choice([.3, .5, .8]))

def bialg_graph(rng):
    """bipartite phaseless Z/X diagrams, some Hadamard edges, some phases"""
    g = zx.Graph()
    a = [g.add_vertex(VT.Z, 0, i) for i in range(rng.randint(1, 3))]
    b = [g.add_vertex(VT.X, 1, i) for i in range(rng.randint(1, 3))]
    for x in a:
        for y in b:
            if rng.random() < .6: g.add_edge((x, y), ET.HADAMARD if rng.random() < .08 else ET.SIMPLE)
    ins, outs = [], []
    for x in a + b:
        if rng.random() < .1: g.set_phase(x, 1)
        if rng.random() < .3:
            o = g.add_vertex(VT.BOUNDARY, 2, 2); g.add_edge((x, o), ET.HADAMARD if rng.random() < .2 else ET.SIMPLE)
            (ins if rng.random() < .5 else outs).append(o)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    gens.rand_scalar(rng, g.scalar)
    return g

def library(c, n=100):
    """the matcher/rewrite pairs of the rule library, applied until nothing matches"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name, mt, ap, gl, sub = RULES[(i + c.shard) % len(RULES)]
        g = rule_graph(rng, name, gl)
        if rng.random() < .3: gens.nearmiss(rng, g, gl=gl)
        try:
            start = core.gobj(g); desc = gens.dump(g); ev = []
            for k in range(3):
                def go():
                    m = mt(g)
                    m = list(m)
                    if sub and len(m) > 1 and rng.random() < .4: m = rng.sample(m, rng.randint(1, len(m)))
                    if m: R.apply_rule(g, ap, m)
                    return len(m)
                ok, r = call(go)
                if ok and not r: 
                    if k == 0: c.note('nomatch:' + name)
                    ev.append((name + ' finds nothing', 'eq', core.gobj(g))); break
                c.note(name)
                if not rec(c, 'rules', g, start, ev, name, ok, r, desc): break
                if gl and not is_gl(g): break
            if ev: c.add('rules', start, ev, desc)
        except NotRepresentable: c.skipped += 1

def phasepoly(c, n=40):
    """phase gadgets on subsets of four spiders: the rule R_13 of CNOT-dihedral operators, up to a scalar"""
    import itertools
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = zx.Graph(); k = rng.choice([4, 4, 5]); ts, ins, outs = [], [], []
        ph = lambda: F(rng.choice([1, 3, 5, 7] * 3 + [0, 2, 4]), 4)
        for q in range(k):
            t = g.add_vertex(VT.Z, q, 2, phase=ph()); ts.append(t)
            for l, r in ((ins, 0), (outs, 5)):
                if rng.random() < .85: b = g.add_vertex(VT.BOUNDARY, q, r); l.append(b); g.add_edge((b, t), rng.choice([ET.SIMPLE, ET.HADAMARD]))
        g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); p = rng.choice([.6, .8, .95])
        for x in (2, 3, 4):
            for s in itertools.combinations(ts, x):
                if rng.random() < p:
                    h = g.add_vertex(VT.Z, -1, 2, phase=rng.choice([0, 0, 0, 1])); l = g.add_vertex(VT.Z, -2, 2, phase=F(rng.choice([1, 3, 5, 7]), 4))
                    g.add_edges([(h, l)] + [(h, t) for t in s], ET.HADAMARD)
        if rng.random() < .3 and rng.random() < .5: g.add_edge(tuple(rng.sample(ts, 2)), ET.HADAMARD)
        try:
            start = core.gobj(g); desc = gens.dump(g)
            def go():
                m = R.match_gadgets_phasepoly(g)
                if m: R.apply_gadget_phasepoly(g, m)
                return len(m)
            ok, r = call(go); c.note('phasepoly' if ok and r else 'nomatch:phasepoly')
            c.add('rules', start, [('phasepoly', 'prop', export_result(core.gobj, g) if ok else bad(r))], desc)
        except NotRepresentable: c.skipped += 1

def is_gl(g):
    for e in g.edges():
        s, t = g.edge_st(e)
        if g.type(s) == VT.Z and g.type(t) == VT.Z and g.edge_type(e) != ET.HADAMARD: return False
    return all(g.type(v) in (VT.Z, VT.BOUNDARY) for v in g.vertices())

def unfuse(c, n=50):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2), phk='T')
        vs = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]
        v = rng.choice(vs); ns = [w for w in g.neighbors(v) if rng.random() < .5]
        m = [v, ns] + ([gens.phase(rng, 'T')] if rng.random() < .5 else [])
        try:
            start = core.gobj(g); desc = gens.dump(g) + ' unspider %s' % m; ev = []
            ok, r = call(R.unspider, g, m)
            c.note('unspider')
            rec(c, 'unspider', g, start, ev, 'unspider', ok, r, desc)
            c.add('unspider', start, ev, desc)
        except NotRepresentable: c.skipped += 1

BASIC1 = ['color_change', 'copy_X', 'copy_Z', 'pi_commute_X', 'pi_commute_Z', 'remove_id']
BASIC2 = ['strong_comp', 'fuse']

def basic_graph(rng, hb):
    return gens.rand_diagram(rng, gens.size(rng, 1, 6, 11), rng.randint(0, 2), rng.randint(0, 2), phk=rng.choice(['pauli', 'pauli', 'cliff', 'T', 'any']),
                             dens=rng.choice([.2, .35, .5]), phad=rng.choice([.1, .3, .5]), hbox=hb)

def basic(c, n=150):
    """basicrules: check_R answers whether R applies and changes nothing; R preserves the map when it
    returns True and changes nothing when it returns False"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name = (BASIC1 * 2 + BASIC2 * 2 + ['color_change_diagram'])[(i + 3 * c.shard) % 17]
        hb = .15 if name in ('remove_id', 'color_change', 'fuse', 'strong_comp', 'copy_X', 'pi_commute_Z') and rng.random() < .3 else 0
        g = basic_graph(rng, hb)
        if name in ('copy_X', 'copy_Z'): gens.salt(rng, g, (VT.X,) if name == 'copy_X' else (VT.Z,), .2)
        vs = [v for v in g.vertices()]
        if rng.random() < .8: vs = [v for v in vs if g.type(v) != VT.BOUNDARY] or vs
        # prefer places where the rule applies
        cand = []
        if name in BASIC1:
            args = [(v,) for v in vs]
        elif name in BASIC2:
            args = [(a, b) for a in vs for b in vs if a != b and g.connected(a, b)]
        else: args = [()]
        if not args: continue
        rng.shuffle(args)
        chk = getattr(B, 'check_' + name, None)
        a = args[0]
        try:
            start = core.gobj(g); ev = []
            if chk:
                for t in args[:6]:
                    ok, r = call(chk, g, *t)
                    if not ok: ev.append(('check_' + name, 'same', bad(r))); break
                    if r: a = t; break
                if ok: ev.append(('check_' + name, 'same', export_result(core.gobj, g)))
            desc = gens.dump(g) + ' %s%s' % (name, tuple(x + 1 for x in a))
            if ok if chk else True:
                pre = r if chk else True
                ok, r2 = call(getattr(B, name), g, *a)
                if name == 'color_change_diagram':
                    if ok:  # Hadamards are put on every boundary: undone by a second application
                        ok, r2 = call(B.color_change_diagram, g)
                    rec(c, 'basic', g, start, ev, name + ' twice', ok, r2, desc)
                elif not ok: rec(c, 'basic', g, start, ev, name, ok, r2, desc)
                else:
                    applies = bool(r2)
                    c.note(name + (':applied' if applies else ':refused'))
                    if applies != bool(chk(g, *a) if False else pre):
                        ev.append((name, 'eq', bad('%s returned %s although check_%s said %s' % (name, applies, name, bool(pre)))))
                    else:
                        rec(c, 'basic', g, start, ev, name, True, None, desc, 'eq' if applies else 'same')
            c.add('basic', start, ev, desc)
        except NotRepresentable: c.skipped += 1

HBOX_OPS = {'had2edge', 'fuse_hbox', 'mult_hbox', 'copy', 'pauli', 'bialgebra', 'euler', 'id_z'}
def editor(c, n=150):
    """the operations offered in the editor, on a random selection of vertices or edges"""
    rng = c.rng
    names = [k for k in ED.operations if k not in ('fuse_w',)]
    for i in range(n):
        if not c.more(): break
        name = names[(i + 2 * c.shard) % len(names)]
        op = ED.operations[name]
        if name in ('lcomp', 'pivot'):
            g = gens.rand_diagram(rng, gens.size(rng, 2, 7, 12), rng.randint(0, 2), rng.randint(0, 2), phk=rng.choice(['pauli', 'cliff']), dens=.4, gl=rng.random() < .8)
        elif name == 'bialgebra' and rng.random() < .6: g = bialg_graph(rng)
        elif name in ('had2edge', 'fuse_hbox') and rng.random() < .8: g = c03.hchain(rng)
        elif name == 'mult_hbox' and rng.random() < .9: g = c03.hyper(rng, phases=rng.choice(['mix', 'T', 'pi']), nots=.1)
        elif name in ('copy', 'pauli') and rng.random() < .5: g = c03.copyg(rng)
        else:
            g = basic_graph(rng, .3 if name in HBOX_OPS and rng.random() < .6 else 0)
        if rng.random() < .25: gens.nearmiss(rng, g)
        try:
            if rng.random() < .5: f = lambda x: True
            elif op['type'] == ED.MATCHES_VERTICES:
                sel = set(v for v in g.vertices() if rng.random() < .6); f = lambda v: v in sel
            else:
                sel = set(e for e in g.edges() if rng.random() < .6); f = lambda e: e in sel
            start = core.gobj(g); desc = gens.dump(g) + ' op ' + name; ev = []
            def go():
                m = op['matcher'](g, f)
                if not m: return 0
                etab, rv, re, chk = op['rule'](g, m)
                g.remove_edges(re); g.remove_vertices(rv); g.add_edge_table(etab)
                if chk: g.remove_isolated_vertices()
                return len(m)
            ok, r = call(go)
            if ok and not r: c.note('nomatch:' + name)
            else: c.note(name)
            rec(c, 'editor', g, start, ev, name, ok, r, desc, 'same' if ok and not r else 'eq')
            c.add('editor', start, ev, desc)
        except NotRepresentable: c.skipped += 1

ZW = ['fuse_w', 'fuse', 'w_fusion', 'w_fusion_parallel', 'z_to_z_box', 'spider_parallel', 'remove_id', 'ids_parallel', 'isolated', 'editor:fuse_w', 'editor:spider', 'editor:rem_id', 'color_change']
def zw(c, n=60):
    """rules on diagrams with W nodes and Z-boxes"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name = ZW[(i + c.shard) % len(ZW)]
        g = gens.zw_diagram(rng, rng.randint(0 if 'w' not in name else 2, 3), gens.size(rng, 1, 5, 9), rng.randint(0, 2), rng.randint(0, 2), zbox=rng.choice([.3, .7, 1]))
        try:
            start = core.gobj(g); desc = gens.dump(g) + ' ' + name; ev = []
            def lib(mt, ap):
                m = list(mt(g))
                if m: R.apply_rule(g, ap, m)
                return len(m)
            def run():
                if name in ('fuse_w', 'fuse', 'remove_id', 'color_change'):
                    vs = list(g.vertices())
                    ps = [(v,) for v in vs] if name in ('remove_id', 'color_change') else [(a, b) for a in vs for b in vs if a < b and g.connected(a, b)]
                    if name == 'fuse_w': ps = [p for p in ps if all(g.type(v) in (4, 5) for v in p) and core_partner(g, *p)]
                    rng.shuffle(ps)
                    for p in ps:
                        if getattr(B, 'check_' + name)(g, *p): return getattr(B, name)(g, *p)
                    return 0
                if name == 'w_fusion': return lib(R.match_w_fusion, R.w_fusion)
                if name == 'w_fusion_parallel': return lib(R.match_w_fusion_parallel, R.w_fusion)
                if name == 'z_to_z_box': return lib(R.match_z_to_z_box_parallel, R.z_to_z_box)
                if name == 'spider_parallel': return lib(R.match_spider_parallel, R.spider)
                if name == 'ids_parallel': return lib(R.match_ids_parallel, R.remove_ids)
                if name == 'isolated': g.remove_isolated_vertices(); return 1
                op = ED.operations[name.split(':')[1]]
                m = op['matcher'](g, lambda x: True)
                if not m: return 0
                etab, rv, re, _ = op['rule'](g, m)
                g.remove_edges(re); g.remove_vertices(rv); g.add_edge_table(etab)
                return len(m)
            ok, r = call(run)
            c.note(name if ok and r else ('nomatch:' + name if ok else name))
            rec(c, 'zw', g, start, ev, name, ok, r, desc)
            c.add('zw', start, ev, desc)
        except NotRepresentable: c.skipped += 1

def core_partner(g, a, b):
    return g.edge_type(g.edge(a, b)) != 3

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 7 * (1 if chk.tier == 'quick' else 10)
    jobs = [('library', dict(n=150 * k)), ('unfuse', dict(n=25 * k)), ('basic', dict(n=190 * k)), ('editor', dict(n=180 * k)), ('zw', dict(n=80 * k)), ('phasepoly', dict(n=12 * k))]
    chk.validate(chk.gen('checks.c02', jobs, b))
    return chk.finish('seeded random diagrams, every rule in turn at random places; non-trivial when recorded objects are distinct')
