"""C12: diagram algebra is faithful."""
from fractions import Fraction as F
import json, itertools
import core, gens
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from checks.c10 import Ungrounded, positions

def tag(g, p, rng, ground=0.0):
    """name every vertex, so that it can be recognized after an operation"""
    for k, v in enumerate(g.vertices()):
        g.set_vdata(v, 'tag', '%s%d' % (p, k))
        if rng.random() < .2: g.set_vdata(v, 'note', [k])
        if ground and g.type(v) in (VT.Z, VT.X) and rng.random() < ground: g.set_ground(v)

def wires(rng, g, nin, nout):
    """bare wires, cups and caps beside the diagram: the boundary of g afterwards is in random order"""
    ins, outs = list(g.inputs()), list(g.outputs())
    def b(q, r): return g.add_vertex(VT.BOUNDARY, q, r)
    def e(x, y): g.add_edge((x, y), rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
    while len(ins) < nin or len(outs) < nout:
        r = rng.random()
        if r < .4 and len(ins) < nin and len(outs) < nout: x, y = b(1, 0), b(1, 9); e(x, y); ins.append(x); outs.append(y)
        elif r < .6 and len(ins) + 1 < nin: x, y = b(1, 0), b(2, 0); e(x, y); ins += [x, y]
        elif r < .8 and len(outs) + 1 < nout: x, y = b(1, 9), b(2, 9); e(x, y); outs += [x, y]
        else:
            i = len(ins) < nin; x = b(1, 0 if i else 9); s = g.add_vertex(rng.choice([VT.Z, VT.X]), 1, 3, phase=gens.phase(rng, 'any')); e(x, s); (ins if i else outs).append(x)
    rng.shuffle(ins); rng.shuffle(outs)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    return g

def diagram(rng, nin, nout, backend=None, kind=None):
    kind = kind or rng.choice(['zx', 'zx', 'gl', 'h', 'zw', 'wires'])
    a, b = (nin, nout) if rng.random() < .6 and kind != 'wires' else (rng.randint(0, nin), rng.randint(0, nout))
    n = gens.size(rng, 0, 4, 9)
    if kind == 'zw': g = gens.zw_diagram(rng, rng.randint(0, 2), rng.randint(1, 3), a, b)
    elif kind == 'wires': g = gens.rand_diagram(rng, rng.randint(0, 1), 0, 0, 'any')
    else: g = gens.rand_diagram(rng, n, a, b, rng.choice(['any', 'T']), gl=kind == 'gl', hbox=.4 if kind == 'h' else 0)
    wires(rng, g, nin, nout)
    if rng.random() < .3: g.scalar.add_float(rng.choice([1j, 1 + 1j, 0.5, -1]))
    if backend == 'multigraph':
        g = g.copy(backend='multigraph')
        if rng.random() < .5:
            g.set_auto_simplify(False)
            vs = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X, VT.H_BOX)]
            for _ in range(rng.randint(0, 2)):
                if len(vs) > 1: g.add_edge(tuple(rng.sample(vs, 2)), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    elif rng.random() < .3:      # vertex names with gaps
        x = g.add_vertex(VT.Z); y = g.add_vertex(VT.Z, phase=F(1, 2)); g.remove_vertex(x)
    if rng.random() < .5:
        for v in g.vertices(): g.set_row(v, g.row(v) + 2); g.set_qubit(v, g.qubit(v) - 1)
    return g

def rb(rng): return rng.choice(['simple', 'simple', 'multigraph'])
UNRED = 'unreducible'     # parallel wires between H-boxes or W nodes do not exist on the simple backend

def ident(tags, g, keep=None):
    """the diagram with everything attached to its vertices; for the relation iso"""
    r, ix = core.graph_plain(Ungrounded(g))
    return {'k': 'graph', 'g': core.finish(r), 'x': [json.dumps([bool(g.is_ground(v))] + [[k, g.vdata(v, k)] for k in sorted(g.vdata_keys(v)) if k != 'label']) for v in g.vertices()]}
def witness(g, h):
    at = {h.vdata(v, 'tag', None): i + 1 for i, v in enumerate(h.vertices())}
    return [at.get(g.vdata(v, 'tag', None), 1) for v in g.vertices()]

def survives(c, site, g, r, what):
    """vertices of g, recognized by name, still carry the same grounds and data in r (boundaries may have been consumed)"""
    at = {r.vdata(v, 'tag', None): v for v in r.vertices()}
    for v in g.vertices():
        if g.type(v) == VT.BOUNDARY: continue
        w = at.get(g.vdata(v, 'tag'))
        if w is None: return bad('%s: a vertex or its data is lost' % what)
        if r.is_ground(w) != g.is_ground(v): return bad('%s: ground not kept' % what)
        for k in g.vdata_keys(v):
            if k != 'label' and r.vdata(w, k, None) != g.vdata(v, k): return bad('%s: vertex data not kept' % what)
    return None

def compose(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        a, m, b = rng.randint(0, 2), rng.randint(0, 3), rng.randint(0, 2)
        be, be2 = rb(rng), rb(rng)
        g, h = diagram(rng, a, m, be), diagram(rng, m, b, be2); tag(g, 'a', rng); tag(h, 'b', rng)
        try:
            A, B = core.gobj(g), core.gobj(h); start = core.then(A, B); ev = []; desc = '%s | %s || %s | %s' % (be, gens.dump(g), be2, gens.dump(h))
            x0, y0 = ident(0, g), ident(0, h)
            def inplace():
                x = g.copy(); x.compose(h); return x
            def iadd():
                x = g.clone(); x += h; return x
            for nm, f in [('compose', inplace), ('a + b', lambda: g + h), ('a += b', iadd), ('b * a', lambda: h * g)]:
                ok, r = call(f); c.note(nm)
                if not ok and UNRED in r: c.skipped += 1; continue
                ev.append((nm, 'eq', export_result(core.gobj, r) if ok else bad(r)))
                if ok:
                    s = survives(c, 'compose', g, r, nm) or survives(c, 'compose', h, r, nm)
                    if s: ev.append((nm + ': vertex data', 'eq', s))
                    for v in r.vertices(): r.set_vdata(v, 'note', 'changed')      # changing the result does not reach the operands
            c.add('compose', start, ev, desc)
            for o, x, nm in ((g, x0, 'first'), (h, y0, 'second')):
                z = ident(0, o); z['perm'] = witness(o, o)
                c.add('compose', x, [(nm + ' operand untouched', 'iso', z)], desc)
            # shapes that do not match are rejected, and leave the first diagram as it is
            k = diagram(rng, m + 1, 1)
            ok, r = call(lambda: g.compose(k))
            z = bad('diagrams of different shape were composed') if ok else ident(0, g)
            if not ok: z['perm'] = witness(g, g)
            c.add('compose', x0, [('rejected composition', 'iso', z)], desc)
        except NotRepresentable: c.skipped += 1

def tensor(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be, be2 = rb(rng), rb(rng); gr = rng.choice([0, 0, .3])
        g, h = diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be), diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be2)
        tag(g, 'a', rng); tag(h, 'b', rng)
        try:
            A, B = core.gobj(g), core.gobj(h); start = core.par(A, B); ev = []; desc = '%s | %s || %s | %s' % (be, gens.dump(g), be2, gens.dump(h))
            if gr: tag(g, 'a', rng, gr); tag(h, 'b', rng, gr); desc += ' with grounds'
            x0, y0 = ident(0, g), ident(0, h)
            for nm, f in [('tensor', lambda: g.tensor(h)), ('a @ b', lambda: g @ h)]:
                ok, r = call(f); c.note(nm)
                if not ok and UNRED in r: c.skipped += 1; continue
                ev.append((nm, 'eq', export_result(core.gobj, Ungrounded(r)) if ok else bad(r)))
                if ok:
                    s = survives(c, 'tensor', g, r, nm) or survives(c, 'tensor', h, r, nm)
                    if s: ev.append((nm + ': vertex data', 'eq', s))
                    for v in r.vertices(): r.set_vdata(v, 'note', 'changed')
            c.add('tensor', start, ev, desc)
            for o, x, nm in ((g, x0, 'first'), (h, y0, 'second')):
                z = ident(0, o); z['perm'] = witness(o, o)
                c.add('tensor', x, [(nm + ' operand untouched', 'iso', z)], desc)
        except NotRepresentable: c.skipped += 1

def adjoint(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rb(rng); g = diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be)
        if rng.random() < .5:
            for v in g.vertices():
                if g.type(v) == VT.Z_BOX: g.set_vdata(v, 'label', rng.choice([1j, 1 + 1j, -2j, 0.5 - 0.5j]))
        tag(g, 'a', rng)
        try:
            A = core.gobj(g); desc = '%s | %s' % (be, gens.dump(g)); x0 = ident(0, g); ev = []
            for nm, f in [('adjoint', g.adjoint), ('copy(adjoint=True)', lambda: g.copy(adjoint=True)), ('copy(adjoint=True, backend)', lambda: g.copy(adjoint=True, backend=rng.choice(['simple', 'multigraph'])))]:
                ok, r = call(f); c.note(nm)
                if not ok and UNRED in r: c.skipped += 1; continue
                ev.append((nm, 'eq', export_result(core.gobj, r) if ok else bad(r)))
                if ok:
                    s = survives(c, 'adjoint', g, r, nm)
                    if s: ev.append((nm + ': vertex data', 'eq', s))
            c.add('adjoint', core.adj(A), ev, desc)
            ok, r = call(lambda: g.adjoint().adjoint()); ev = [('adjoint of the adjoint', 'eq', export_result(core.gobj, r) if ok else bad(r))]
            z = ident(0, g); z['perm'] = witness(g, g); c.add('adjoint', x0, [('operand untouched', 'iso', z)], desc)
            for nm, f in [('copy', g.copy), ('clone', g.clone), ('copy(backend)', lambda: g.copy(backend=rng.choice(['simple', 'multigraph'])))]:
                ok, r = call(f); c.note(nm)
                if not ok and UNRED in r: c.skipped += 1; continue
                ev.append((nm, 'eq', export_result(core.gobj, r) if ok else bad(r)))
                if ok:
                    s = survives(c, 'copy', g, r, nm)
                    if s: ev.append((nm + ': vertex data', 'eq', s))
            c.add('copy', A, ev, desc)
        except NotRepresentable: c.skipped += 1

def states(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rb(rng); g = diagram(rng, rng.randint(0, 3), rng.randint(0, 3), be)
        try:
            plain, ix = core.graph_plain(g); A = {'k': 'graph', 'g': core.finish(plain)}; desc = '%s | %s' % (be, gens.dump(g))
            def word(k):
                k = k if rng.random() < .7 else rng.randint(0, k)
                return ''.join(rng.choice('01+-/') for _ in range(k))
            s, e = word(len(g.inputs())), word(len(g.outputs()))
            si = [(v, x) for v, x in zip(g.inputs(), s) if x != '/']; eo = [(v, x) for v, x in zip(g.outputs(), e) if x != '/']
            def st(x): x.apply_state(s); return x
            def ef(x): x.apply_effect(e); return x
            for nm, f, pl in [('apply_state', lambda: st(g.copy()), si), ('apply_effect', lambda: ef(g.copy()), eo), ('apply_state, apply_effect', lambda: ef(st(g.copy())), si + eo)]:
                ok, r = call(f); c.note(nm)
                if not ok and UNRED in r: c.skipped += 1; continue
                if set(v for v, x in si) & set(v for v, x in eo): continue
                c.add(nm, core.plug(A, [ix[v] for v, x in pl], [x for v, x in pl]), [(nm, 'eq', export_result(core.gobj, r) if ok else bad(r))], '%s state=%s effect=%s' % (desc, s, e))
            bads = '0' * (len(g.inputs()) + 1)
            x = g.clone(); ok, r = call(lambda: x.apply_state(bads))
            c.add('apply_state', A, [('too many states are rejected', 'eq', bad('accepted') if ok else core.gobj(x))], desc)
        except NotRepresentable: c.skipped += 1

def parts(c, n=60):
    """sub-diagrams: cutting a diagram in two, merging the parts and joining the cut wires again gives the diagram"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rb(rng); g = diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be); tag(g, 'a', rng)
        try:
            A = core.gobj(g); desc = '%s | %s' % (be, gens.dump(g)); vs = list(g.vertices()); x0 = ident(0, g)
            S = [v for v in vs if rng.random() < .5]; R = [v for v in vs if v not in S]; rng.shuffle(S); rng.shuffle(R)
            def cut():
                h, k = g.subgraph_from_vertices(S), g.subgraph_from_vertices(R)
                name = lambda x: {x.vdata(v, 'tag'): v for v in x.vertices()}
                nh = name(h); new, newe = k.merge(h)
                if len(list(new)) != len(S): raise AssertionError('merge does not return the new vertices')
                nk = name(k)
                for v, w in zip(h.vertices(), new):
                    if k.vdata(w, 'tag') != h.vdata(v, 'tag'): raise AssertionError('merge does not list the new vertices in order')
                to = {v: nk[g.vdata(v, 'tag')] for v in vs}
                for e in g.edges():
                    s, t = g.edge_st(e)
                    if (s in S) != (t in S): k.add_edge((to[s], to[t]), g.edge_type(e))
                k.set_inputs(tuple(to[v] for v in g.inputs())); k.set_outputs(tuple(to[v] for v in g.outputs()))
                k.scalar.mult_with_scalar(g.scalar)
                return k
            ok, r = call(cut); c.note('subgraph, merge')
            if not ok and UNRED in r: c.skipped += 1; continue
            c.add('subgraph', A, [('cut and merged', 'eq', export_result(core.gobj, r) if ok else bad(r))] + ([('vertex data', 'eq', survives(c, 'subgraph', g, r, 'cut and merged'))] if ok and survives(c, 'subgraph', g, r, 'cut and merged') else []), desc + ' cut=%s' % S)
            z = ident(0, g); z['perm'] = witness(g, g); c.add('subgraph', x0, [('diagram untouched by cutting', 'iso', z)], desc)
            # merging another diagram is putting it beside
            h = diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be); tag(h, 'b', rng); B = core.gobj(h); y0 = ident(0, h)
            def beside():
                x = g.clone(); new, _ = x.merge(h); m = dict(zip(h.vertices(), new))
                if set(x.inputs()) != set(g.inputs()) or set(x.outputs()) != set(g.outputs()): raise AssertionError('merge changed the boundary')
                x.set_inputs(x.inputs() + tuple(m[v] for v in h.inputs())); x.set_outputs(x.outputs() + tuple(m[v] for v in h.outputs())); x.scalar.mult_with_scalar(h.scalar)
                return x
            ok, r = call(beside); c.note('merge')
            if not ok and UNRED in r: c.skipped += 1; continue
            c.add('merge', core.par(A, B), [('merge', 'eq', export_result(core.gobj, r) if ok else bad(r))], desc + ' || ' + gens.dump(h))
            z = ident(0, h); z['perm'] = witness(h, h); c.add('merge', y0, [('merged diagram untouched', 'iso', z)], desc)
        except NotRepresentable: c.skipped += 1

def layout(c, n=60):
    """normalize, automatic detection of the boundary, translation, packing of rows"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rb(rng); g = diagram(rng, rng.randint(0, 3), rng.randint(0, 3), be, rng.choice(['zx', 'gl', 'gl', 'h', 'zw', 'wires']))
        if rng.random() < .6: positions(rng, g)
        # boundaries in the order of their qubits, as in every diagram that comes from a circuit
        srt = rng.random() < .8
        if srt:
            for q, v in enumerate(g.inputs()): g.set_qubit(v, q); g.set_row(v, -5)
            for q, v in enumerate(g.outputs()): g.set_qubit(v, q); g.set_row(v, 12)
        tag(g, 'a', rng)
        try:
            A = core.gobj(g); desc = '%s | %s' % (be, gens.dump(g)); ev = []
            def nrm():
                x = g.clone(); x.normalize(); return x
            if srt:
                ok, r = call(nrm); c.note('normalize')
                if ok or UNRED not in r: ev.append(('normalize', 'eq', export_result(core.gobj, r) if ok else bad(r)))
                if ok:
                    for nm, bs in (('input', r.inputs()), ('output', r.outputs())):
                        if len(set(r.row(v) for v in bs)) > 1: ev.append(('normalize', 'eq', bad('%ss are not in one column' % nm)))
                        if [r.qubit(v) for v in bs] != list(range(len(bs))): ev.append(('normalize', 'eq', bad('%ss are not on their qubits' % nm)))
            def tr():
                x = g.translate(3, -2)
                at = {x.vdata(v, 'tag'): v for v in x.vertices()}
                for v in g.vertices():
                    w = at[g.vdata(v, 'tag')]
                    if abs(x.row(w) - g.row(v) - 3) > 1e-9 or abs(x.qubit(w) - g.qubit(v) + 2) > 1e-9: raise AssertionError('not translated')
                return x
            ok, r = call(tr); c.note('translate')
            if ok or UNRED not in r: ev.append(('translate', 'eq', export_result(core.gobj, r) if ok else bad(r)))
            def pk():
                x = g.clone(); x.pack_circuit_rows()
                rows = sorted(set(x.row(v) for v in x.vertices()))
                if rows != list(range(len(rows))): raise AssertionError('rows are not packed')
                for v, w in itertools.combinations(x.vertices(), 2):
                    if (g.row(v) < g.row(w)) != (x.row(v) < x.row(w)) or (g.row(v) > g.row(w)) != (x.row(v) > x.row(w)): raise AssertionError('order of the rows changed')
                return x
            ok, r = call(pk); c.note('pack_circuit_rows'); ev.append(('pack_circuit_rows', 'eq', export_result(core.gobj, r) if ok else bad(r)))
            c.add('layout', A, ev, desc)
            # detection: every boundary left of its neighbour is an input, in the order of the qubits
            x = g.clone(); positions(rng, x)
            bd = [v for v in x.vertices() if x.type(v) == VT.BOUNDARY]; nb = {v: next(iter(x.neighbors(v))) for v in bd}
            if any(x.row(v) == x.row(nb[v]) for v in bd): continue
            ins = sorted((v for v in bd if x.row(v) < x.row(nb[v])), key=x.qubit); outs = sorted((v for v in bd if x.row(v) > x.row(nb[v])), key=x.qubit)
            if len(set(x.qubit(v) for v in ins)) != len(ins) or len(set(x.qubit(v) for v in outs)) != len(outs): continue
            y = x.clone(); y.set_inputs(tuple(ins)); y.set_outputs(tuple(outs)); A = core.gobj(y)
            ok, r = call(x.auto_detect_io); c.note('auto_detect_io')
            c.add('auto_detect_io', A, [('auto_detect_io', 'eq', export_result(core.gobj, x) if ok else bad(r))], desc)
        except NotRepresentable: c.skipped += 1

def isolated(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rb(rng); g = diagram(rng, rng.randint(0, 2), rng.randint(0, 2), be, rng.choice(['zx', 'zx', 'zw', 'h']))
        def sp():
            t = rng.choice([VT.Z, VT.X, VT.Z, VT.X, VT.H_BOX, VT.Z_BOX])
            v = g.add_vertex(t, 7, 7, phase=rng.choice([0, 1, F(1, 2), F(3, 2), F(1, 4), F(7, 4), F(3, 4), F(5, 4)]) if t != VT.Z_BOX else 0)
            if t == VT.Z_BOX: g.set_vdata(v, 'label', rng.choice([1, -1, 2, 0.5, 1j, 1 - 1j, 0]))
            return v
        for _ in range(rng.randint(1, 3)):
            v = sp()
            if rng.random() < .7: g.add_edge((v, sp()), rng.choice([ET.SIMPLE, ET.HADAMARD]))
        try:
            A = core.gobj(g)
            def f():
                x = g.clone(); x.remove_isolated_vertices()
                for v in x.vertices():
                    if x.vertex_degree(v) == 0: raise AssertionError('an isolated vertex remains')
                return x
            ok, r = call(f); c.note('remove_isolated_vertices')
            c.add('isolated', A, [('remove_isolated_vertices', 'eq', export_result(core.gobj, r, strict=False) if ok else bad(r))], '%s | %s' % (be, gens.dump(g)))
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 5 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c12', [('compose', dict(n=60 * k)), ('tensor', dict(n=50 * k)), ('adjoint', dict(n=50 * k)), ('states', dict(n=60 * k)), ('parts', dict(n=50 * k)), ('layout', dict(n=60 * k)), ('isolated', dict(n=80 * k))], b))
    return chk.finish('seeded diagrams of all vertex kinds with bare wires, cups and caps, on both backends; non-trivial when recorded objects are distinct')
