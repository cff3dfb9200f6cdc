"""C11: histories of graph operations against the abstract machine GraphADT."""
from fractions import Fraction as F
import core, tlc, random, os
from framework import *
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.graph.multigraph import Multigraph

T = [VT.BOUNDARY, VT.Z, VT.X, VT.H_BOX, VT.W_INPUT, VT.W_OUTPUT, VT.Z_BOX]
LABELS = {'1': 1, '-1': -1, '2': 2, 'i': 1j}

def ph8(p):
    try:
        k = F(p) * 4
        return int(k) if k.denominator == 1 and 0 <= k < 8 else -99
    except Exception: return -99

def et3(g, e, ty=None):
    s, t = g.edge_st(e); return [s, t, int(g.edge_type(e))]

def observe(g, rng):
    vs = list(g.vertices()); multi = isinstance(g, Multigraph)
    vx = []
    tys, phs = g.types(), g.phases()
    for v in vs:
        t = int(g.type(v)); p = g.phase(v)
        if v not in tys or int(tys[v]) != t: t = -1
        if v not in phs or phs[v] != p: p = None
        q, r = g.qubit(v), g.row(v)
        if g.qubits().get(v, -1) != q: q = -98
        if g.rows().get(v, -1) != r: r = -98
        lab = g.vdata(v, 'label', 1) if t == 6 else 1
        try: lab = core.ring_of(lab)
        except Exception: lab = [9, 9, 9, 9, 9]
        vd = [[k, str(g.vdata(v, k))] for k in sorted(g.vdata_keys(v)) if k != 'label']
        vx.append({'ty': t, 'ph': ph8(p) if p is not None else -99, 'q': q if q == int(q) else -97, 'r': r if r == int(r) else -97, 'gr': bool(g.is_ground(v)),
                   'deg': g.vertex_degree(v), 'nb': list(g.neighbors(v)), 'inc': [et3(g, e) for e in g.incident_edges(v)], 'lb': lab, 'vd': vd})
    con = [[u, v] for i, u in enumerate(vs) for v in vs[i:] if g.connected(u, v)]
    btw = []
    for u, v in con: btw += [et3(g, e) for e in g.edges(*rng.choice([(u, v), (v, u)]))]
    a, b = rng.randint(-1, 2), rng.randint(2, 6)
    return {'vs': vs, 'vset': sorted(g.vertex_set()), 'nv': g.num_vertices(), 'nx': g.vindex(), 'vx': vx, 'gr': sorted(g.grounds()), 'hyb': g.is_hybrid(),
            'inp': list(g.inputs()), 'ni': g.num_inputs(), 'out': list(g.outputs()), 'no': g.num_outputs(),
            'ed': [et3(g, e) for e in g.edges()], 'ne': g.num_edges(), 'es': [list(g.edge_st(e)) for e in g.edge_set()], 'con': con, 'btw': btw,
            'dep': g.depth(), 'qc': g.qubit_count(), 'wf': bool(g.is_well_formed()), 'id': bool(g.is_id()), 'vir': [a, b, list(g.vertices_in_range(a, b))],
            'sc': core.scalar_rec(g.scalar)}

def kind(g): return 's' if not isinstance(g, Multigraph) else 'ma' if g._auto_simplify else 'm'
def parallels(g):
    seen = set()
    for e in g.edges():
        p = tuple(sorted(g.edge_st(e)))
        if p in seen or p[0] == p[1]: return True
        seen.add(p)
    return False

def edges_of(g, u=None): return [et3(g, e) for e in g.edges()]
def zxl(g, v): return g.type(v) in (VT.Z, VT.X, VT.Z_BOX)

OPS = ['add_vertex'] * 5 + ['add_vertices', 'add_vertex_indexed', 'remove_vertices', 'remove_vertices'] + ['add_edge'] * 10 + ['add_edge_table'] * 3 + \
      ['add_edges', 'remove_edge', 'remove_edge', 'remove_edges', 'set_edge_type', 'set_edge_type', 'set_type', 'set_phase', 'add_to_phase', 'set_qubit', 'set_row',
       'set_position', 'set_inputs', 'set_outputs', 'set_ground', 'set_vdata', 'set_vdata', 'set_label', 'set_auto_simplify', 'pack_circuit_rows', 'scalar', 'clone', 'copy',
       'subgraph_from_vertices', 'merge']

def step(rng, gs, k, op):
    """choose arguments for op on graph k; returns (args, thunk, returned -> record) or None when not applicable"""
    g = gs[k]; vs = list(g.vertices()); nv = len(vs); R = rng.random; be = kind(g)
    pick = lambda: rng.choice(vs)
    none = lambda r: {}
    if op == 'add_vertex':
        if nv >= 6: return None
        t = rng.choice([1, 1, 1, 2, 2, 6, 6, 0, 3, 5]); ph = rng.choice([8, 8, 0, 1, 2, 4, 7]); q, r = rng.randint(-1, 4), rng.randint(-1, 6); gr = R() < .15
        return dict(ty=t, ph=ph, q=q, r=r, gr=gr), lambda: g.add_vertex(T[t], q, r, None if ph == 8 else rng.choice([F(ph, 4), F(ph + 8, 4), F(ph - 8, 4)] if ph else [0, F(0), F(2)]), gr), lambda r: {'ret': r}
    if op == 'add_vertices':
        if nv >= 5: return None
        n = rng.randint(0, 2); return dict(n=n), lambda: g.add_vertices(n), lambda r: {'ret': list(r)}
    if op == 'add_vertex_indexed':
        c = [v for v in range(0, g.vindex() + 3) if v not in vs]
        if nv >= 6 or not c: return None
        v = rng.choice(c); return dict(v=v), lambda: g.add_vertex_indexed(v), none
    if op in ('clone', 'copy'):
        if len(gs) > 2 or nv == 0: return None
        if op == 'copy' and be != 'm' and parallels(g): return None
        return {}, lambda: gs.append(g.clone() if op == 'clone' else g.copy()), none
    if not vs: return None
    if op == 'remove_vertices':
        if nv < 2: return None
        S = rng.sample(vs, rng.randint(1, min(2, nv - 1)))
        return dict(vs=S), (lambda: g.remove_vertex(S[0])) if len(S) == 1 and R() < .5 else (lambda: g.remove_vertices(S)), none
    if op in ('add_edge', 'add_edge_table'):
        es = edges_of(g)
        loop = R() < .12
        if es and R() < .55: s, t, _ = rng.choice(es)
        else: s = pick(); t = pick()
        if loop: t = s
        if R() < .5: s, t = t, s
        zx2 = zxl(g, s) and zxl(g, t)
        if s == t and not (zx2 and be != 'm'): return None
        ex = [e[2] for e in es if {e[0], e[1]} == {s, t}]
        if 3 in ex: return None
        if op == 'add_edge':
            et = 3 if (not ex and s != t and R() < .05) else rng.choice([1, 2])
            return dict(s=s, t=t, et=et), lambda: g.add_edge((s, t), ET(et)), none
        ns, nh = rng.randint(0, 3), rng.randint(0, 3)
        if not zx2 and be != 'm' and ns + nh + len(ex) > 1: return None
        if ns + nh == 0: return None
        return dict(s=s, t=t, ns=ns, nh=nh), lambda: g.add_edge_table({(s, t): [ns, nh]}), none
    if op == 'add_edges':
        ps = [(u, v) for i, u in enumerate(vs) for v in vs[i + 1:] if not g.connected(u, v)]
        if not ps: return None
        ps = rng.sample(ps, rng.randint(1, min(3, len(ps)))); et = rng.choice([1, 2])
        return dict(ps=[list(p) for p in ps], et=et), lambda: g.add_edges(ps, ET(et)), none
    if op in ('remove_edge', 'remove_edges', 'set_edge_type'):
        el = list(g.edges())
        if not el: return None
        if op == 'remove_edges':
            S = rng.sample(el, rng.randint(1, min(3, len(el)))); return dict(ps=[et3(g, e) for e in S]), lambda: g.remove_edges(S), none
        e = rng.choice(el); s, t, et = et3(g, e)
        single = sum({x[0], x[1]} == {s, t} for x in edges_of(g)) == 1
        e2 = g.edge(s, t) if single and R() < .5 else e
        if op == 'remove_edge': return dict(s=s, t=t, et=et), lambda: g.remove_edge(e2), none
        if et == 3: return None
        to = rng.choice([1, 2]); return dict(s=s, t=t, et=et, to=to), lambda: g.set_edge_type(e2, ET(to)), none
    v = pick()
    if op == 'set_type':
        t = rng.choice([0, 1, 1, 2, 2, 3, 6, 5, 4]); return dict(v=v, ty=t), lambda: g.set_type(v, T[t]), none
    if op in ('set_phase', 'add_to_phase'):
        if g.type(v) == VT.Z_BOX: return None
        p = rng.randint(-9, 17); f = g.set_phase if op == 'set_phase' else g.add_to_phase
        return dict(v=v, ph=p), lambda: f(v, F(p, 4) if p % 4 or R() < .5 else p // 4), none
    if op in ('set_qubit', 'set_row', 'set_position'):
        q, r = rng.randint(-1, 5), rng.randint(-1, 8)
        return dict(v=v, q=q, r=r), {'set_qubit': lambda: g.set_qubit(v, q), 'set_row': lambda: g.set_row(v, r), 'set_position': lambda: g.set_position(v, q, r)}[op], none
    if op in ('set_inputs', 'set_outputs'):
        S = rng.sample(vs, rng.randint(0, min(2, nv))); return dict(vs=S), lambda: (g.set_inputs if op == 'set_inputs' else g.set_outputs)(tuple(S)), none
    if op == 'set_ground':
        on = R() < .6; return dict(v=v, on=on), lambda: g.set_ground(v, on) if not on or R() < .5 else g.set_ground(v), none
    if op == 'set_vdata':
        kk, x = rng.choice('abc'), str(rng.randint(0, 9)); return dict(v=v, k=kk, x=x), lambda: g.set_vdata(v, kk, x), none
    if op == 'set_label':
        c = [v for v in vs if g.type(v) == VT.Z_BOX]
        if not c: return None
        v = rng.choice(c); x = rng.choice(list(LABELS.values())); return dict(v=v, x=core.ring_of(x)), lambda: zx.utils.set_z_box_label(g, v, x), none
    if op == 'set_auto_simplify':
        if be == 's': return None
        on = R() < .5; return dict(on=on), lambda: g.set_auto_simplify(on), none
    if op == 'pack_circuit_rows': return {}, lambda: g.pack_circuit_rows(), none
    if op == 'scalar':
        a, b = rng.randint(-2, 3), rng.randint(0, 7)
        def f(): g.scalar.add_power(a); g.scalar.add_phase(F(b, 4))
        return dict(p2=a, ph=b), f, none
    if op == 'subgraph_from_vertices':
        if len(gs) > 2 or (be != 'm' and parallels(g)): return None
        S = rng.sample(vs, rng.randint(1, nv)); return dict(vs=S), lambda: gs.append(g.subgraph_from_vertices(S)), none
    if op == 'merge':
        o = [i for i in range(len(gs)) if i != k and len(gs[i].vertices()) + nv <= 8 and (be == 'm' or not parallels(gs[i]))]
        if not o: return None
        o = rng.choice(o)
        return dict(o=o + 1), lambda: g.merge(gs[o]), lambda r: {'ret': list(r[0]), 'rete': [sorted(g.edge_st(e)) for e in r[1]]}

def newgraph(be):
    g = zx.Graph(backend='simple' if be == 's' else 'multigraph')
    if be != 's': g.set_auto_simplify(be == 'ma')
    return g

def play(c, site, be, choose, length):
    """choose(gs) -> (graph index, op, args, thunk, ret) or None"""
    rng = c.rng; gs = [newgraph(be)]; ev = []
    for _ in range(length):
        x = choose(gs)
        if x is None: continue
        k, op, args, thunk, rec = x
        e = {'a': op, 'g': k + 1, **args}
        n = len(gs)
        ok, r = call(thunk); c.note(op)
        e['exc'] = not ok
        if not ok and len(gs) > n: del gs[n:]
        try:
            if ok: e.update(rec(r))
            e['obs'] = [observe(h, rng) for h in gs]
        except NotRepresentable: c.skipped += 1; break
        except Exception as ex:
            if raised_in_repo(ex): e['obs'] = []; e['exc'] = True; ev.append(e); break
            raise
        ev.append(e)
    if ev: c.traces.append({'site': site, 'be': be, 'ev': ev, 'desc': '%s %s' % (be, ' ; '.join('%d.%s(%s)' % (e['g'], e['a'], ','.join('%s=%s' % (p, q) for p, q in e.items() if p not in ('a', 'g', 'obs', 'exc', 'ret', 'rete'))) for e in ev))})

def raised_in_repo(ex):
    import traceback
    return any(f.filename.startswith(os.path.join(core.REPO, 'pyzx')) for f in traceback.extract_tb(ex.__traceback__))

def history(c, n=40, length=18):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        be = rng.choice(['s', 's', 'm', 'ma'])
        def choose(gs):
            k = rng.randrange(len(gs))
            for _ in range(8):
                op = rng.choice(OPS) if len(gs[k].vertices()) > 1 else 'add_vertex'
                x = step(rng, gs, k, op)
                if x: return (k, op) + x
        play(c, 'history', be, choose, rng.randint(4, length))

def perform(gs, e):
    """an operation as module GraphGen writes it"""
    g = gs[0]; a = e['a']
    if a == 'add_vertex': return lambda: g.add_vertex(T[e['ty']], e['q'], e['r']), lambda r: {'ret': r}
    f = {'add_edge': lambda: g.add_edge((e['s'], e['t']), ET(e['et'])), 'add_edge_table': lambda: g.add_edge_table({(e['s'], e['t']): [e['ns'], e['nh']]}),
         'remove_edge': lambda: g.remove_edge([x for x in g.edges() if et3(g, x)[2] == e['et'] and sorted(g.edge_st(x)) == sorted((e['s'], e['t']))][0]),
         'set_edge_type': lambda: g.set_edge_type([x for x in g.edges() if et3(g, x)[2] == e['et'] and sorted(g.edge_st(x)) == sorted((e['s'], e['t']))][0], ET(e['to'])),
         'set_type': lambda: g.set_type(e['v'], T[e['ty']]), 'remove_vertices': lambda: g.remove_vertices(e['vs']),
         'clone': lambda: gs.append(g.clone()), 'copy': lambda: gs.append(g.copy())}[a]
    return f, lambda r: {}

def replay(c, hists=()):
    """histories that TLC enumerated, performed by the real code"""
    for i in range(c.shard, len(hists), c.nshards):
        if not c.more(): break
        h = hists[i]; it = iter(h[1:])
        def choose(gs):
            e = next(it); f, rec = perform(gs, e)
            return 0, e['a'], {k: v for k, v in e.items() if k not in ('a', 'g')}, f, rec
        play(c, 'enumerated', h[0]['be'], choose, len(h) - 1)

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 8 * (1 if chk.tier == 'quick' else 10)
    cases = chk.gen('checks.c11', [('history', dict(n=60 * k))], b)
    out = chk.model('GraphGen.tla', 'GraphGen2.cfg' if chk.tier == 'quick' else 'GraphGen3.cfg', pure=False, workers=4, xmx='6g')
    hists = [h for h in tlc.printed(out) if isinstance(h, list)]
    chk.extra['histories_enumerated_by_TLC'] = len(hists)
    if chk.tier != 'quick': random.Random(chk.seed).shuffle(hists); hists = hists[:60000]
    cases += chk.gen('checks.c11', [('replay', dict(hists=hists))], 60 if chk.tier == 'quick' else 200)
    chk.validate_with('GraphTrace.tla', 'GraphTrace.cfg', cases, pure=False, shards=8)
    return chk.finish('a history is non-trivial when it is not identical to another')
