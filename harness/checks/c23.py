"""C23: graph diffs reproduce the edit."""
import core, gens, random, json, copy
from fractions import Fraction as F
from framework import *
import tlc
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.symbolic import Poly, new_var
from pyzx.graph import GraphDiff

def val(x):
    """a text that is equal exactly for equal values"""
    if isinstance(x, Poly) and not x.free_vars(): return val(sum(co for co, t in x.terms))
    if isinstance(x, Poly):
        return 'poly ' + json.dumps(sorted([sorted('%s^%s:%s' % (v.name, k, v.is_bool) for v, k in t.vars), val(co)] for co, t in x.terms))
    if x is None or isinstance(x, (str, bool)): return repr(x)
    if isinstance(x, complex): return 'c %r %r' % (x.real + 0, x.imag + 0)
    if isinstance(x, dict): return '{' + ', '.join(sorted(repr(k) + ': ' + val(v) for k, v in x.items())) + '}'
    if isinstance(x, (list, tuple)): return '[' + ', '.join(val(v) for v in x) + ']'
    if isinstance(x, float) and x != x: return 'nan'
    return str(F(x))

def dump(g):
    vs = [dict(v=v, ty=int(g.type(v)), ph=val(g.phase(v)), q=val(g.qubit(v)), r=val(g.row(v)), vd=val({k: g.vdata(v, k) for k in g.vdata_keys(v)})) for v in sorted(g.vertices())]
    cnt = {}
    for e in g.edges():
        s, t = g.edge_st(e); k = (min(s, t), max(s, t), int(g.edge_type(e))); cnt[k] = cnt.get(k, 0) + 1
    return dict(vs=vs, ed=sorted([*k, n] for k, n in cnt.items()), inp=list(g.inputs()), out=list(g.outputs()))

BACK = [('simple', None), ('multigraph', False), ('multigraph', True)]
def graph(be):
    g = zx.Graph(be[0]) if be[0] != 'simple' else zx.Graph()
    if be[1] is not None: g.set_auto_simplify(be[1])
    return g

def check(c, a, b, site, desc, roundtrip=True):
    A, B = dump(a), dump(b); ev = []
    def put(nm, to, ok, r):
        if ok: ok, r = call(dump, r)
        ev.append(dict(a=nm, to=to, exc='' if ok else r, o=r if ok else A)); c.note(nm)
        return ok
    ok, d = call(GraphDiff, a, b)
    if not ok: put('diff', 'b', ok, d); return c.traces.append(dict(site=site, desc=desc, a=A, b=B, ev=ev))
    ok, x = call(d.apply_diff, a); ok = put('apply', 'b', ok, x)
    put('first argument', 'arg a', True, a); put('second argument', 'arg b', True, b)
    ok2, u = call(lambda: GraphDiff(b, a).apply_diff(b)); put('undo', 'a', ok2, u)
    ok2, u = call(lambda: GraphDiff(a, a).apply_diff(a)); put('nothing', 'same', ok2, u)
    if roundtrip:
        ok2, js = call(d.to_json)
        if not ok2: put('to_json', 'b', ok2, js)
        else:
            ok3, y = call(lambda: GraphDiff.from_json(js).apply_diff(a)); put('json', 'b', ok3, y)
    if ok:
        # what was produced shares nothing with the diff and its arguments
        def spoil(g):
            for v in list(g.vertices()):
                for k in list(g.vdata_keys(v)):
                    w = g.vdata(v, k)
                    if isinstance(w, list): w.append(1)
                    elif isinstance(w, dict): w['q'] = 1
                    g.set_vdata(v, k, 'spoiled')
        spoil(x); put('apply again', 'b', *call(d.apply_diff, a)); put('second argument after a change to the result', 'arg b', True, b)
        put('first argument after a change to the result', 'arg a', True, a)
        h = copy.deepcopy(b); d2 = GraphDiff(a, h); spoil(h); put('apply after a change to the second argument', 'b', *call(d2.apply_diff, a))
    c.traces.append(dict(site=site, desc=desc, a=A, b=B, ev=ev))

TY = {0: VT.BOUNDARY, 1: VT.Z}
def of_record(r, be):
    g = graph(be)
    for v, t, p in r['vs']: g.add_vertex_indexed(v); g.set_type(v, TY[t]); g.set_phase(v, F(p)); g.set_position(v, v, v)
    for (s, t, k), n in r['ed']:
        for _ in range(n): g.add_edge((s, t), ET(k))
    return g

def enumerated(c, recs):
    for i, (x, y) in enumerate(recs):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        for be in BACK:
            if be[0] == 'simple' and any(len({k for (s, t, k), n in r['ed']}) > 1 for r in (x, y)): continue
            a, b = of_record(x, be), of_record(y, be)
            check(c, a, b, 'enumerated', '%s: %s -> %s' % (be, x, y), i % 5 == 0)

VARS = ['a', 'b', 'alpha', 'x1']
def a_phase(rng, g, sym):
    r = rng.random()
    if sym and r < .3:
        p = Poly([])
        for _ in range(rng.randint(1, 2)):
            n = rng.choice(VARS)
            if n not in g.variable_types: g.variable_types[n] = rng.random() < .5
            t = new_var(n, g.variable_types)
            if rng.random() < .3: t = t * t
            p = p + t * rng.choice([1, 2, F(1, 2), F(3, 4), F(1, 3)])
        return p + rng.choice([0, 1, F(1, 2)])
    if r < .4: return F(rng.randint(1, 600), rng.choice([257, 600, 1024, 4096, 65536, 10**9 + 7]))
    return F(rng.randint(0, 15), rng.choice([1, 2, 4, 8, 3, 5, 256]))
def a_value(rng):
    return rng.choice(['v7', 'some name', '3', 'j', 'pi', '', 5, 0, 2.5, -1, True, None, [1, 2], {'k': 'v', 'n': 2}, 1 + 2j, complex(0.5, -1), 1j, [], {}])
def label(rng): return rng.choice([1, -1, 2, F(1, 2), 0.5, complex(1, 1), complex(0, -2)])
def pos(rng): return rng.choice([rng.randint(-3, 9), rng.randint(-20, 40) / 4, 0.1 * rng.randint(1, 9)])

def add_v(g, rng, sym, js):
    t = rng.choice([VT.Z, VT.Z, VT.X, VT.H_BOX, VT.BOUNDARY, VT.Z_BOX])
    v = g.add_vertex(t, pos(rng), pos(rng), phase=a_phase(rng, g, sym) if t in (VT.Z, VT.X) else None)
    if t == VT.Z_BOX: zx.utils.set_z_box_label(g, v, a_label(rng, js))
    if rng.random() < .3: g.set_vdata(v, rng.choice(['name', 'note', 'k']), copy.deepcopy(a_value(rng)))
    return v
def a_label(rng, js):
    l = label(rng)
    return float(l) if js and isinstance(l, F) else l

def edit(g, rng, sym, js):
    vs = list(g.vertices()); es = list(g.edges()); k = rng.choice(['av', 'rv', 'ae', 'ae', 're', 'st', 'et', 'ph', 'pos', 'vd', 'vdel', 'box', 'rv+av'])
    if k in ('rv', 'rv+av') and vs: g.remove_vertex(rng.choice(vs + [max(vs)] * 2))
    if k in ('av', 'rv+av'):
        v = add_v(g, rng, sym, js)
        if len(g.vertices()) > 1 and rng.random() < .7:
            w = rng.choice([w for w in g.vertices() if w != v])
            g.add_edge((v, w), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    elif k == 'ae' and len(vs) > 1:
        s, t = rng.sample(vs, 2)
        if g.backend == 'simple' and g.connected(s, t): return k
        g.add_edge((s, t), rng.choice([ET.SIMPLE, ET.HADAMARD]))
        if g.backend != 'simple' and rng.random() < .4: g.add_edge((s, t), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    elif k == 're' and es: g.remove_edge(rng.choice(es))
    elif k == 'et' and es:
        e = rng.choice(es); g.set_edge_type(e, ET.SIMPLE if g.edge_type(e) == ET.HADAMARD else ET.HADAMARD)
    elif k == 'st' and vs: g.set_type(rng.choice(vs), rng.choice([VT.Z, VT.X, VT.H_BOX, VT.BOUNDARY]))
    elif k == 'ph' and vs: g.set_phase(rng.choice(vs), a_phase(rng, g, sym))
    elif k == 'pos' and vs: g.set_position(rng.choice(vs), pos(rng), pos(rng))
    elif k == 'vd' and vs: g.set_vdata(rng.choice(vs), rng.choice(['name', 'note', 'k']), copy.deepcopy(a_value(rng)))
    elif k == 'vdel' and vs:
        v = rng.choice(vs)
        if g.backend == 'simple' or True: getattr(g, '_vdata', {}).pop(v, None)
    elif k == 'box' and vs:
        v = rng.choice(vs); g.set_type(v, VT.Z_BOX); zx.utils.set_z_box_label(g, v, a_label(rng, js))
    return k

def start(rng, be, sym, js):
    g = graph(be)
    for _ in range(gens.size(rng, 1, 6, 16)): add_v(g, rng, sym, js)
    vs = list(g.vertices())
    for i in range(len(vs)):
        for j in range(i):
            if rng.random() < .4: g.add_edge((vs[j], vs[i]), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    bd = [v for v in vs if g.type(v) == VT.BOUNDARY]
    k = rng.randint(0, len(bd)); g.set_inputs(tuple(bd[:k])); g.set_outputs(tuple(bd[k:]))
    return g

def edits(c, n):
    rng = c.rng
    for _ in range(n):
        if not c.more(): break
        be = rng.choice(BACK); sym = rng.random() < .4; js = rng.random() < .7
        a = start(rng, be, sym, js); b = copy.deepcopy(a); log = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 10])): log.append(edit(b, rng, sym, js))
        check(c, a, b, 'edits', '%s %s after %s' % (be, gens.dump(a) if not sym else '', log), js)

def unrelated(c, n):
    rng = c.rng
    for _ in range(n):
        if not c.more(): break
        be = rng.choice(BACK); a, b = start(rng, be, False, True), start(rng, be, False, True)
        bd = [v for v in b.vertices() if v in a.inputs()]   # boundary lists are not part of a diff
        b.set_inputs(tuple(v for v in a.inputs() if v in b.vertices())); b.set_outputs(tuple(v for v in a.outputs() if v in b.vertices()))
        check(c, a, b, 'unrelated', '%s %s -> %s' % (be, gens.dump(a), gens.dump(b)))

def rewrites(c, n):
    """the edit is made by the simplifier"""
    rng = c.rng
    S = zx.simplify
    for i in range(n):
        if not c.more(): break
        g = gens.rand_circuit(rng, rng.randint(1, 4), rng.randint(2, 20), rng.choice(['T', 'cliff', 'zx']), 'any').to_graph() if rng.random() < .5 else gens.rand_diagram(rng, rng.randint(2, 7), rng.randint(0, 2), rng.randint(0, 2), 'any')
        f = rng.choice([S.spider_simp, S.id_simp, S.to_gh, S.to_graph_like, S.interior_clifford_simp, S.clifford_simp, S.full_reduce])
        b = g.copy() if False else copy.deepcopy(g)
        ok, r = call(f, b)
        if not ok: continue
        c.note(f.__name__); check(c, g, b, 'rewrites', f.__name__ + ' ' + gens.dump(g))

def main(chk):
    q = chk.tier == 'quick'
    recs = [(x['da'], x['db']) for x in tlc.printed(chk.model('DiffGen.tla', 'DiffGen2.cfg', workers=1)) if 'da' in x]
    if not q: chk.model('DiffGen.tla', 'DiffGen3.cfg', workers=8)
    recs.sort(key=str); random.Random(chk.seed).shuffle(recs)
    if q: recs = recs[:700]
    t = chk.gen('checks.c23', [('enumerated', dict(recs=recs)), ('edits', dict(n=110 if q else 2500)), ('unrelated', dict(n=20 if q else 400)), ('rewrites', dict(n=14 if q else 300))], 10 if q else 200)
    chk.validate_with('DiffTrace.tla', 'DiffTrace.cfg', t)
    return chk.finish('a case is non-trivial when it is not identical to another')
