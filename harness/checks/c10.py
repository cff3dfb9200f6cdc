"""C10: JSON and TikZ round trips, GraphML output."""
from fractions import Fraction as F
import json, os, tempfile, math
import core, gens
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.symbolic import Poly, Term, Var, new_var

def positions(rng, g, nd=3):
    """distinct positions with at most nd decimals"""
    seen = set()
    for v in g.vertices():
        while True:
            r = round(rng.choice([rng.randint(-3, 9), rng.uniform(-3, 9)]), nd); q = round(rng.choice([rng.randint(-3, 5), rng.uniform(-3, 5)]), nd)
            if (round(r, 2), round(q, 2)) not in seen: break
        seen.add((round(r, 2), round(q, 2))); g.set_row(v, r); g.set_qubit(v, q)

SVALS = ['abc', 'foo bar', '3', '1e5', 'nan', 'j', '', 'a"b', '1j2']
def extras(rng, g):
    data = {}
    for v in g.vertices():
        if rng.random() < .3:
            k = rng.choice(['tag', 'note', 'x1']); val = rng.choice([1, 2.5, True, None, [1, 2], {'a': 1}, rng.choice(SVALS), 1 + 2j, -3j, 0.5j])
            g.set_vdata(v, k, val); data.setdefault(v, []).append(k)
    return data

def norm(x):
    if isinstance(x, complex): return 'c%r' % (x,)
    if isinstance(x, dict): return {k: norm(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)): return [norm(y) for y in x]
    return x
def xtra(g, v, keys, nd=3, ground=True):
    def f(z): return '%.*f' % (nd, round(float(z), nd) + 0.0)
    return json.dumps([f(g.row(v)), f(g.qubit(v)), bool(g.is_ground(v)) if ground else False, [[k, norm(g.vdata(v, k))] for k in keys]], sort_keys=True)

class Ungrounded:
    """the graph without its grounds (those are compared as vertex data)"""
    def __init__(self, g): self.g = g
    def __getattr__(self, a): return getattr(self.g, a)
    def is_ground(self, v): return False
def obj(g, keys, nd=3):
    """keys: vertex -> vdata keys"""
    r, ix = core.graph_plain(Ungrounded(g)); o = {'k': 'graph', 'g': core.finish(r), 'x': [xtra(g, v, keys.get(v, []), nd) for v in g.vertices()]}
    return o
def image(g, h, keys, nd=3):
    """vertex of g -> vertex of h by position; the witness of the isomorphism that the specification checks"""
    at = {}
    for v in h.vertices(): at.setdefault((round(float(h.row(v)), nd), round(float(h.qubit(v)), nd)), []).append(v)
    m = {}
    for v in g.vertices():
        c = at.get((round(float(g.row(v)), nd), round(float(g.qubit(v)), nd)))
        if not c or len(c) != 1: return None
        m[v] = c[0]
    return m
def isoobj(g, h, keys, nd=3):
    m = image(g, h, keys, nd)
    if m is None: return bad('a vertex is missing or at another position')
    o = obj(h, {m[v]: keys.get(v, []) for v in g.vertices()}, nd)
    ix = {v: i + 1 for i, v in enumerate(h.vertices())}
    o['perm'] = [ix[m[v]] for v in g.vertices()]
    return o

def poly(rng, g):
    p = None
    for _ in range(rng.randint(1, 3)):
        nm = rng.choice(['a', 'b', 'th', 'x', 'phi']); 
        if nm not in g.variable_types: g.variable_types[nm] = rng.random() < .4
        v = new_var(nm, g.variable_types)
        t = v * F(rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 4])) if rng.random() < .6 else v
        if rng.random() < .2: t = t * t
        p = t if p is None else p + t
    if rng.random() < .5: p = p + F(rng.choice([1, 3]), rng.choice([1, 2, 4]))
    return p

def rand_graph(rng, backend, sym=False, ground=False, bigden=True):
    r = rng.random()
    n = gens.size(rng, 1, 6, 16)
    if r < .25: g = gens.zw_diagram(rng, rng.randint(0, 3), rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 2))
    else: g = gens.rand_diagram(rng, n, rng.randint(0, 3), rng.randint(0, 2), rng.choice(['any', 'T']), hbox=rng.choice([0, .3]), gl=rng.random() < .2, scalar=False)
    if backend == 'multigraph':
        g = g.copy(backend='multigraph')
        if rng.random() < .5:
            g.set_auto_simplify(False)
            vs = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]
            for _ in range(rng.randint(0, 3)):
                if len(vs) > 1: g.add_edge(tuple(rng.sample(vs, 2)), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    elif rng.random() < .5:        # vertex names with gaps
        vs = list(g.vertices()); x = g.add_vertex(VT.Z); y = g.add_vertex(VT.Z); g.remove_vertex(x)
        g.add_edge((y, rng.choice(vs)), ET.HADAMARD) if g.type(vs[0]) in (VT.Z, VT.X) and not [v for v in vs if g.type(v) == VT.BOUNDARY] else g.remove_vertex(y)
    for v in g.vertices():
        if g.type(v) in (VT.Z, VT.X) and bigden and rng.random() < .08: g.set_phase(v, F(rng.choice([1, 3, 101]), rng.choice([336, 300, 16800, 420])))
        if sym and g.type(v) in (VT.Z, VT.X) and rng.random() < .4: g.set_phase(v, poly(rng, g))
        if ground and g.type(v) in (VT.Z, VT.X) and rng.random() < .2: g.set_ground(v)
    if rng.random() < .3 and len(g.inputs()) > 1: g.set_inputs(tuple(reversed(g.inputs())))
    return g

def scalar(rng, s):
    gens.rand_scalar(rng, s)
    if rng.random() < .3: s.add_node(rng.choice([F(1, 4), F(1, 3), F(7, 4)]))
    if rng.random() < .3: s.add_float(rng.choice([0.5, 1j, 1 + 1j, -1, 0.25 - 0.5j, 2]))
    if rng.random() < .1: s.add_node(1) if rng.random() < .5 else s.add_float(0)

def jsonrt(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rng.choice(['simple', 'simple', 'multigraph'])
        sym = rng.random() < .2; ground = rng.random() < .15
        g = rand_graph(rng, be, sym, ground); positions(rng, g)
        keys = extras(rng, g) if rng.random() < .6 else {}
        scalar(rng, g.scalar)
        if rng.random() < .2:
            for k, v in enumerate(list(g.vertices())):
                if rng.random() < .5: g.set_vdata(v, 'name', rng.choice(['v%d', 'b%d', 'n%d', '%d', 'v0%d']) % k)
        try:
            A = obj(g, keys); desc = gens.dump(Ungrounded(g)) + ' %s data=%s scalar=%r types=%s' % (be, [(v, k, g.vdata(v, k)) for v in keys for k in keys[v]], g.scalar.__dict__, dict(g.variable_types))
            ev = []
            ok, t = call(lambda: g.to_json()); c.note('to_json')
            if not ok: ev.append(('to_json', 'eq', bad(t)))
            else:
                others = [('simple', False)] if be == 'simple' else [('multigraph', True)]
                for nm, f in [('from_json', lambda: type(g).from_json(t)), ('Graph.from_json', lambda: zx.Graph.from_json(t) if be == 'simple' else zx.graph.multigraph.Multigraph.from_json(t)),
                              ('json_to_graph', lambda: zx.graph.jsonparser.json_to_graph(t, backend=be))][rng.randrange(2):]:
                    ok, h = call(f)
                    if not ok: ev.append((nm, 'eq', bad(h))); continue
                    dup = be == 'multigraph'       # reading reduces parallel edges: only the map is promised
                    if not dup: ev.append((nm, 'iso', export_result(isoobj, g, h, keys)))
                    ev.append((nm, 'eq', export_result(lambda: {'k': 'graph', 'g': core.finish(core.graph_plain(Ungrounded(h))[0])})))
                    if dict(h.variable_types) != dict(g.variable_types): ev.append((nm, 'eq', bad('types of the variables are lost')))
                    ok, t2 = call(lambda: h.to_json())
                    ok, h2 = call(lambda: type(g).from_json(t2)) if ok else (False, t2)
                    if not dup: ev.append(('written and read twice', 'iso', export_result(isoobj, g, h2, keys) if ok else bad(h2)))
                    ev.append(('written and read twice', 'eq', export_result(lambda: {'k': 'graph', 'g': core.finish(core.graph_plain(Ungrounded(h2))[0])}) if ok else bad(h2)))
                ev.append(('argument untouched', 'iso', export_result(isoobj, g, g, keys)))
            if rng.random() < .2:
                ok, t = call(lambda: g.to_json(include_scalar=False)); ok, h = call(lambda: type(g).from_json(t)) if ok else (False, t)
                ev.append(('to_json(include_scalar=False)', 'prop' if not g.scalar.is_zero else 'skip', export_result(lambda: {'k': 'graph', 'g': core.finish(core.graph_plain(Ungrounded(h))[0])}) if ok else bad(h)))
                if ev[-1][1] == 'skip': ev.pop()
            c.add('json ' + be, A, ev, desc)
        except NotRepresentable: c.skipped += 1

def tikzrt(c, n=50):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rng.choice(['simple', 'simple', 'multigraph'])
        g = rand_graph(rng, be); positions(rng, g, rng.choice([0, 1, 2]))
        if any(round(float(x), 2) != x for v in g.vertices() for x in (g.row(v), g.qubit(v))): continue
        for v in g.vertices():
            if g.type(v) in (VT.Z, VT.X) and rng.random() < .2: g.set_phase(v, rng.choice([0, 1, F(1), F(7, 4), F(2, 3)]))
            if g.type(v) == VT.H_BOX and rng.random() < .4: g.set_phase(v, rng.choice([0, F(0), 1, F(1, 2)]))
        had = [e for e in g.edges() if g.edge_type(e) == ET.HADAMARD and VT.BOUNDARY in [g.type(x) for x in g.edge_st(e)]]
        try:
            A = obj(g, {}, 2); desc = gens.dump(g) + ' ' + be; ev = []
            ok, t = call(lambda: g.to_tikz()); c.note('to_tikz')
            if not ok: ev.append(('to_tikz', 'prop', bad(t)))
            else:
                ok, h = call(lambda: type(g).from_tikz(t, warn_overlap=False, fuse_overlap=False))
                if not ok: ev.append(('from_tikz', 'prop', bad(h)))
                else:
                    m = image(g, h, {}, 2) if not had else dict(zip(list(g.vertices()), list(h.vertices())))
                    if m is None: ev.append(('from_tikz', 'prop', bad('a vertex is missing or at another position')))
                    else:
                        h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs()))
                        if not had and be == 'simple': 
                            ev.append(('from_tikz', 'iso', export_result(isoobj, g, h, {}, 2)))
                        ev.append(('from_tikz', 'prop', export_result(core.gobj, h)))
                ev.append(('argument untouched', 'iso', export_result(isoobj, g, g, {}, 2)))
            c.add('tikz', A, ev, desc + ' ## ' + str(t)[:600])
        except NotRepresentable: c.skipped += 1

def tikzseq(c, n=8):
    """a grid of diagrams is the disjoint union"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        gs = []
        for _ in range(2):
            g = gens.rand_diagram(rng, rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 1), 'T', scalar=False, direct=0)
            for e in list(g.edges()):
                if VT.BOUNDARY in [g.type(x) for x in g.edge_st(e)]: g.set_edge_type(e, ET.SIMPLE)
            for k, v in enumerate(g.vertices()): g.set_row(v, k); g.set_qubit(v, k % 3)
            gs.append(g)
        try:
            ok, t = call(lambda: zx.tikz.to_tikz_sequence(gs)); c.note('to_tikz_sequence')
            ev = []
            if not ok: ev.append(('to_tikz_sequence', 'prop', bad(t)))
            else:
                ok, h = call(lambda: zx.tikz.tikz_to_graph(t, warn_overlap=False, fuse_overlap=False))
                if ok:
                    n1 = gs[0].num_vertices(); m = [dict(zip(gs[0].vertices(), list(h.vertices())[:n1])), dict(zip(gs[1].vertices(), list(h.vertices())[n1:]))]
                    if len(list(h.vertices())) != n1 + gs[1].num_vertices(): h = None; ev.append(('to_tikz_sequence', 'prop', bad('number of vertices')))
                    else:
                        h.set_inputs(tuple(m[k][v] for k in (0, 1) for v in gs[k].inputs())); h.set_outputs(tuple(m[k][v] for k in (0, 1) for v in gs[k].outputs()))
                        ev.append(('to_tikz_sequence', 'prop', export_result(core.gobj, h)))
                else: ev.append(('to_tikz_sequence', 'prop', bad(h)))
            c.add('tikz sequence', core.par(core.gobj(gs[0]), core.gobj(gs[1])), ev, ' || '.join(gens.dump(g) for g in gs))
        except NotRepresentable: c.skipped += 1

def tikztext(c, n=25):
    """diagrams as Tikzit writes them: styles by any of their names, labels in the different forms"""
    rng = c.rng
    Zs = ['Z dot', 'z', 'Z spider', 'green node', 'white dot', 'Z phase dot', 'green phase node', 'white phase spider']
    Xs = ['X dot', 'x', 'X spider', 'red node', 'gray dot', 'grey phase dot', 'X phase dot', 'red phase node']
    Bs = ['none', 'boundary', 'empty']; Hs = ['hadamard', 'H', 'small hadamard']
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2), 'any', hbox=rng.choice([0, .3]), scalar=False, direct=0, phad=.3)
        ids = rng.sample(range(40), g.num_vertices()); vid = dict(zip(g.vertices(), ids))
        nl, el = [], []
        for k, v in enumerate(g.vertices()):
            t = g.type(v); st = rng.choice({VT.Z: Zs, VT.X: Xs, VT.BOUNDARY: Bs, VT.H_BOX: Hs}[t]); p = F(g.phase(v)); lab = ''
            a, d = p.numerator, p.denominator
            sg = '-' if a < 0 else ''
            if t == VT.H_BOX: lab = '' if p == 1 else None
            elif p == 0: lab = rng.choice(['', '$0$', '0'])
            elif p == 1: lab = rng.choice([r'$\pi$', r'$-\pi$', r'\neg', r'$\neg$', r'$ \pi $'])
            if lab is None or (lab == '' and p not in (0, 1) ) or (t in (VT.Z, VT.X) and d > 1):
                c1 = '' if a == 1 else str(a)
                lab = rng.choice([r'$\frac{%s\pi}{%d}$' % (c1, d), r'$\frac{%s \pi}{%d}$' % (c1, d), r'$%s\pi/%d$' % (c1, d), r'~$\frac{%s\pi}{%d}$~' % (c1, d)] if d > 1 else [r'$%s\pi$' % c1])
                if p == 0: lab = '$0$'
            nl.append(r'\node [style=%s] (%d) at (%s, %s) {%s};' % (st, vid[v], repr(float(k)), repr(float(-(k % 3))), lab))
        for e in g.edges():
            x, y = g.edge_st(e); x, y = (x, y) if rng.random() < .5 else (y, x)
            if g.edge_type(e) == ET.HADAMARD: o = rng.choice(['[style=hadamard edge] ', '[style=hadamard edge, bend left] ', '[bend right=15, style=hadamard edge] '])
            else: o = rng.choice(['', '', '[style=simple] ', '[bend left] ', '[in=0, out=90] '])
            el.append(r'\draw %s(%d%s) to (%d);' % (o, vid[x], rng.choice(['', '.center']), vid[y]))
        text = '\\begin{tikzpicture}\n\t\\begin{pgfonlayer}{nodelayer}\n\t\t' + '\n\t\t'.join(nl) + '\n\t\\end{pgfonlayer}\n\t\\begin{pgfonlayer}{edgelayer}\n\t\t' + '\n\t\t'.join(el) + '\n\t\\end{pgfonlayer}\n\\end{tikzpicture}\n'
        try:
            A = core.gobj(g); c.note('tikz text')
            ok, h = call(lambda: zx.tikz.tikz_to_graph(text, warn_overlap=False)); ev = []
            if ok:
                vs = list(h.vertices())
                if len(vs) != g.num_vertices(): ev.append(('tikz_to_graph', 'prop', bad('number of vertices')))
                else:
                    m = dict(zip(g.vertices(), vs)); h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs()))
                    ev.append(('tikz_to_graph', 'prop', export_result(core.gobj, h)))
            else: ev.append(('tikz_to_graph', 'prop', bad(h)))
            c.add('tikz text', A, ev, text)
        except NotRepresentable: c.skipped += 1

def graphml(c, n=12):
    import xml.etree.ElementTree as E
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2), 'any', hbox=rng.choice([0, .3]), scalar=False)
        try:
            A = core.gobj(g)
            with core.quiet(): ok, t = call(*rng.choice([(g.to_graphml,), (zx.io.to_graphml, g), (zx.io.to_graphml, g, True)])); c.note('to_graphml')
            def rd():
                root = E.fromstring(t.encode()); ns = '{http://graphml.graphdrawing.org/xmlns}'
                h = zx.Graph(); m = {}
                for nd in root.iter(ns + 'node'):
                    d = {x.get('key'): x.text for x in nd}; m[nd.get('id')] = h.add_vertex(VT(int(d['type'])), phase=F(d['phase']))
                for ed in root.iter(ns + 'edge'): h.add_edge((m[ed.get('source')], m[ed.get('target')]), ET(int([x.text for x in ed if x.get('key') == 'etype'][0])))
                h.set_inputs(tuple(m[str(v)] for v in g.inputs())); h.set_outputs(tuple(m[str(v)] for v in g.outputs()))
                return core.gobj(h)
            c.add('graphml', A, [('to_graphml', 'prop', export_result(rd) if ok else bad(t))], gens.dump(g))
        except NotRepresentable: c.skipped += 1

def legacy(c, n=12):
    """documents as Quantomatic writes them (boundaries marked by truth values or positions, Hadamard edges as nodes,
    phases in its notation), and the deprecated functions of pyzx.io"""
    rng = c.rng; from pyzx import io as IO
    for i in range(n):
        if not c.more(): break
        g = gens.rand_diagram(rng, rng.randint(1, 5), rng.randint(0, 2), rng.randint(0, 2), 'any', hbox=rng.choice([0, .3]), scalar=False)
        for k, v in enumerate(g.vertices()): g.set_row(v, k); g.set_qubit(v, -(k % 3) + rng.choice([0, .5]))
        nm = {v: '%s%d' % (rng.choice('vabn'), 3 * k) for k, v in enumerate(g.vertices())}; nodes, wires, edges = {}, {}, {}
        old = rng.random() < .6
        for v in g.vertices():
            ann = {'coord': [g.row(v), -g.qubit(v)]}; t = g.type(v)
            if t == VT.BOUNDARY:
                ann['boundary'] = True; a, b = v in g.inputs(), v in g.outputs()
                if old: ann['input'] = a; ann['output'] = b
                else:
                    if a: ann['input'] = g.inputs().index(v)
                    if b: ann['output'] = g.outputs().index(v)
                wires[nm[v]] = {'annotation': ann}
            else:
                d = {'type': {VT.Z: 'Z', VT.X: 'X', VT.H_BOX: 'hadamard'}[t]}; p = F(g.phase(v))
                if t == VT.H_BOX: d['is_edge'] = 'false'
                if t != VT.H_BOX and rng.random() < .4: p -= 2      # negative angles
                a, b = p.numerator, p.denominator
                val = ('-' if a == -1 else '' if a == 1 else str(a)) + rng.choice(['\\pi', ' \\pi ' if not old else '\\pi']) + ('/%d' % b if b > 1 else '')
                if p: d['value'] = val
                elif rng.random() < .3: d['value'] = ''
                if t == VT.Z and not p and rng.random() < .3: nodes[nm[v]] = {'annotation': ann}
                else: nodes[nm[v]] = {'annotation': ann, 'data': d}
        for k, e in enumerate(g.edges()):
            x, y = g.edge_st(e); x, y = (x, y) if rng.random() < .5 else (y, x)
            if g.edge_type(e) == ET.SIMPLE: edges['e%d' % (2 * k)] = {'src': nm[x], 'tgt': nm[y]}
            else:
                h = 'h%d' % k; nodes[h] = {'annotation': {'coord': [0.5, k]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
                edges['e%d' % (2 * k)] = {'src': nm[x], 'tgt': h}
                edges['e%d' % (2 * k + 1)] = {'src': h, 'tgt': nm[y]} if rng.random() < .5 else {'src': nm[y], 'tgt': h}
        text = json.dumps({'wire_vertices': wires, 'node_vertices': nodes, 'undir_edges': edges})
        g2 = g.copy(); vm = dict(zip(g.vertices(), g2.vertices()))
        if old: g2.set_inputs(tuple(vm[v] for v in g.vertices() if v in g.inputs())); g2.set_outputs(tuple(vm[v] for v in g.vertices() if v in g.outputs()))
        try:
            A = core.gobj(g2); ev = []; c.note('Quantomatic document')
            fs = [('Graph.from_json', lambda: zx.Graph.from_json(text)), ('io.json_to_graph', lambda: IO.json_to_graph(text))]
            if old: fs.append(('io.json_to_graph, deprecated', lambda: IO.json_to_graph(text, True)))
            for name, f in fs:
                with core.quiet(): ok, h = call(f)
                ev.append((name, 'prop', export_result(core.gobj, h) if ok else bad(h)))
            c.add('Quantomatic document', A, ev, text)
            # the deprecated writer, read by both readers, and GraphML
            A = core.gobj(g); ev = []; g1 = g.copy(); vm = dict(zip(g.vertices(), g1.vertices()))
            with core.quiet(): ok, t = call(IO.graph_to_json, g, True)
            if not ok: ev.append(('io.graph_to_json, deprecated', 'prop', bad(t)))
            else:
                for name, f in [('Graph.from_json', lambda: zx.Graph.from_json(t)), ('io.json_to_graph, deprecated', lambda: IO.json_to_graph(t, True))]:
                    with core.quiet(): ok, h = call(f)
                    def exp():
                        m = image(g, h, {})
                        if m is None: raise BadObject('a vertex is missing or at another position')
                        if sorted(m[v] for v in g.inputs()) != sorted(h.inputs()) or sorted(m[v] for v in g.outputs()) != sorted(h.outputs()): raise BadObject('inputs or outputs differ')
                        h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs()))   # this format has no order
                        return core.gobj(h)
                    ev.append((name + ' of the deprecated writer', 'prop', export_result(exp) if ok else bad(h)))
            c.add('deprecated json', A, ev, gens.dump(g))
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 6 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c10', [('jsonrt', dict(n=70 * k)), ('tikzrt', dict(n=60 * k)), ('tikzseq', dict(n=6 * k)), ('tikztext', dict(n=25 * k)), ('graphml', dict(n=8 * k)), ('legacy', dict(n=14 * k))], b))
    return chk.finish('seeded diagrams of all vertex types; non-trivial when recorded objects are distinct')
