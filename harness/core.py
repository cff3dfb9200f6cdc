"""Shared machinery: exporting PyZX objects to the specification's records,
running TLC, and reporting verdicts.  Nothing in here judges anything: the
judgement is made by TLC on the modules in /verif/spec."""
import os, sys, json, math, random, subprocess, tempfile, time, shutil, hashlib, re
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYZX_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

P = 33601
N = 33600
HALF = N // 2

class NotRepresentable(Exception):
    """the object lies outside what the specification's arithmetic covers"""

class BadObject(Exception):
    """the implementation produced something that is not a legal object"""

# ---------------------------------------------------------------- phases
def poly_eval(p, env):
    """value of a pyzx Poly under env: name -> Fraction (own evaluator)."""
    tot = Fraction(0)
    for c, t in p.terms:
        val = Fraction(c) if not isinstance(c, complex) else c
        for v, e in t.vars:
            x = Fraction(env(v))
            val = val * x ** e
        tot = tot + val
    return tot

def default_env(v):
    """deterministic value for a symbolic variable"""
    h = int(hashlib.md5(v.name.encode()).hexdigest(), 16)
    if getattr(v, 'is_bool', False):
        return Fraction(h % 2)
    return Fraction(1 + h % 15, 8)

def phase_idx(p, reduce=True, env=default_env):
    """phase in units of pi -> integer in units of 2 pi/N"""
    if hasattr(p, 'terms'):
        p = poly_eval(p, env)
    if isinstance(p, float):
        q = Fraction(p).limit_denominator(16800)
        if abs(float(q) - p) > 1e-9: raise NotRepresentable("phase %r" % (p,))
        p = q
    if isinstance(p, complex):
        raise NotRepresentable("complex phase %r" % (p,))
    try:
        k = Fraction(p) * HALF
    except Exception:
        raise NotRepresentable("phase %r" % (p,))
    if k.denominator > 10 ** 6 and abs(k - round(k)) < 1e-8: k = Fraction(round(k))       # a float that was turned into a Fraction
    if k.denominator != 1: raise NotRepresentable("phase %r" % (p,))
    k = int(k)
    if reduce: return k % N
    if abs(k) > 2**30: raise NotRepresentable("phase %r" % (p,))
    return k

# ------------------------------------------------ exact ring elements
R2 = math.sqrt(2)
def _real_in_ring(x, m, bound, tol):
    """x*2^m = a + b*sqrt2 with small integers a, b; or None"""
    y = x * (1 << m)
    for ab in range(0, bound + 1):
        for b in ((ab, -ab) if ab else (0,)):
            a = round(y - b * R2)
            if abs(a) <= bound * 2 + 2 and abs(y - b * R2 - a) < tol * (1 << m):
                return a, b
    return None

def ring_of(c, maxm=10, tol=1e-9, bound=None):
    """complex number -> <<a,b,c,d,m>> meaning (a+bw+cw^2+dw^3)/2^m, w=e^{i pi/4}.
    Raises NotRepresentable when no element with small coefficients is near."""
    if isinstance(c, Fraction):
        d = c.denominator
        if d & (d - 1): raise NotRepresentable(str(c))
        return [c.numerator, 0, 0, 0, d.bit_length() - 1]
    c = complex(c)
    for m in range(0, maxm + 1):
        bd = bound if bound is not None else 4 * (1 << m) + 8
        bd = min(bd, 600)
        r = _real_in_ring(c.real, m, bd, tol)
        if r is None: continue
        i = _real_in_ring(c.imag, m, bd, tol)
        if i is None: continue
        # re = A0 + B0*sqrt2 , im = C0 + D0*sqrt2 (over 2^m)
        # a = A0 ; (b-d)/sqrt2 = B0 sqrt2 -> b-d = 2 B0 ; c = C0 ; b+d = 2 D0
        return [r[0], r[1] + i[1], i[0], i[1] - r[1], m]
    raise NotRepresentable("complex number %r" % (c,))

def scalar_rec(s, env=default_env):
    if getattr(s, 'is_unknown', False): raise NotRepresentable("unknown scalar")
    ff = s.floatfactor
    if isinstance(ff, (int, float, complex)) or hasattr(ff, 'real'):
        try: ff = ring_of(ff)
        except NotRepresentable: ff = ring_of(ff, maxm=4, tol=2e-7, bound=24)   # labels rounded by pyzx enter here
    else:
        raise NotRepresentable("scalar factor")
    return {'p2': int(s.power2), 'ph': phase_idx(s.phase, env=env),
            'nodes': [phase_idx(x, env=env) for x in s.phasenodes],
            'ff': ff, 'zero': bool(s.is_zero)}

ONE = {'p2': 0, 'ph': 0, 'nodes': [], 'ff': [1, 0, 0, 0, 0], 'zero': False}

# --------------------------------------------------------------- graphs
def graph_plain(g, env=default_env, ground=False):
    """graph -> dict without elimination order (vertices renamed 1..n)"""
    verts = list(g.vertices())
    if len(set(verts)) != len(verts): raise BadObject("a vertex is listed twice")
    ix = {v: i + 1 for i, v in enumerate(verts)}
    ty, ph, lb = [], [], []
    for v in verts:
        t = int(g.type(v))
        if t == 7: raise NotRepresentable("dummy vertex")
        if not ground and getattr(g, 'is_ground', None) and g.is_ground(v):
            raise NotRepresentable("ground")
        ty.append(t)
        if t == 6:
            lab = g.vdata(v, 'label', 1)
            lb.append(ring_of(lab, maxm=6, tol=3e-8, bound=40))  # labels are rounded to 8 digits by pyzx
            ph.append(0)
            if g.phase(v) != 0: raise BadObject("phase on a Z-box")
        else:
            lb.append([]); ph.append(phase_idx(g.phase(v), env=env))
            if t in (0, 4, 5) and ph[-1] != 0:
                raise BadObject("phase on a boundary or W vertex")
    ed = []
    for e in g.edges():
        s, t = g.edge_st(e)
        if s not in ix or t not in ix: raise BadObject("edge to a vertex that is not in the graph")
        et = int(g.edge_type(e))
        if et == 0: raise BadObject("listed edge does not exist")
        ed.append([min(ix[s], ix[t]), max(ix[s], ix[t]), et])
    ed.sort()
    for v in list(g.inputs()) + list(g.outputs()):
        if v not in ix: raise BadObject("input or output is not a vertex")
    return {'n': len(verts), 'ty': ty, 'ph': ph, 'lb': lb, 'ed': ed,
            'inp': [ix[v] for v in g.inputs()], 'out': [ix[v] for v in g.outputs()],
            'sc': scalar_rec(g.scalar, env)}, ix

def _spider(t): return t in (0, 1, 2, 6)

def factor_scopes(r):
    n = r['n']; ty = r['ty']; sc = []; vs = set(v for v in range(1, n + 1) if _spider(ty[v - 1]))
    legs = {}
    for e, (u, v, t) in enumerate(r['ed'], 1):
        had = ((t == 2) + (ty[u - 1] == 2) + (ty[v - 1] == 2)) % 2 == 1
        su, sv = _spider(ty[u - 1]), _spider(ty[v - 1])
        a, b = n + 2 * e - 1, n + 2 * e
        if su and sv: sc.append({u, v})
        elif su or sv:
            s, bx = (u, v) if su else (v, u)
            if had: sc.append({s, a}); legs.setdefault(bx, set()).add(a)
            else: legs.setdefault(bx, set()).add(s)
        elif had:
            sc.append({a, b}); legs.setdefault(u, set()).add(a); legs.setdefault(v, set()).add(b)
        else:
            legs.setdefault(u, set()).add(a); legs.setdefault(v, set()).add(a)
    for s in legs.values(): sc.append(set(s))
    for s in sc: vs |= s
    return vs, sc

def elim_order(r):
    """min-degree elimination order turned into a processing order, plus a
    cost estimate (advice for the specification's evaluator)."""
    vs, sc = factor_scopes(r)
    adj = {v: set() for v in vs}
    for s in sc:
        for v in s: adj[v] |= s - {v}
    A = {v: set(x) for v, x in adj.items()}
    elim = []
    left = set(vs)
    while left:
        v = min(left, key=lambda x: (len(A[x]), x))
        nb = A[v]
        for u in nb:
            A[u] |= nb - {u}; A[u].discard(v)
        elim.append(v); left.discard(v); del A[v]
    # processing order: introduce variables so that eliminated ones finish early
    def simulate(order):
        pos = {v: i for i, v in enumerate(order)}
        last = {v: pos[v] for v in order}
        for s in sc:
            m = max(pos[v] for v in s)
            for v in s: last[v] = max(last[v], m)
        live = 0; cost = 0; width = 0
        ends = {}
        for v in order: ends.setdefault(last[v], []).append(v)
        for i, v in enumerate(order):
            live += 1; width = max(width, live); cost += 1 << min(live, 40)
            live -= len(ends.get(i, []))
        return cost, width
    order = []; seen = set()
    for v in elim:
        for u in [v] + sorted(adj[v]):
            if u not in seen: seen.add(u); order.append(u)
    best = (simulate(order), order)
    # greedy: next variable minimising live set
    rem = set(vs); cur = []; live = set(); done = set()
    nadj = adj
    while rem:
        cand = set()
        for l in live: cand |= nadj[l] & rem
        if not cand: cand = rem
        def key(x):
            introduced = done | live | {x}
            closes = sum(1 for y in (live | {x}) if nadj[y] <= introduced)
            return (-closes, len(nadj[x] - introduced), x)
        x = min(cand, key=key)
        cur.append(x); rem.discard(x); live.add(x)
        introduced = done | live
        for y in list(live):
            if nadj[y] <= introduced: live.discard(y); done.add(y)
    c2 = simulate(cur)
    if c2 < best[0]: best = (c2, cur)
    return best[1], best[0][0], best[0][1]

MAXWIDTH = 13
def graph_rec(g, env=default_env):
    r, _ = graph_plain(g, env)
    return finish(r)

def finish(r):
    o, cost, width = elim_order(r)
    if width > MAXWIDTH: raise NotRepresentable("diagram too wide (%d)" % width)
    r['ord'] = o
    return r

def gobj(g, env=default_env):
    return {'k': 'graph', 'g': graph_rec(g, env)}

def doubled(r, gr):
    """skeleton of the doubled diagram: only used to advise an elimination order"""
    n = r['n']
    return {'n': 2 * n, 'ty': list(r['ty']) * 2, 'ed': [list(e) for e in r['ed']] + [[a + n, b + n, t] for a, b, t in r['ed']] + [[v, v + n, 1] for v in gr],
            'inp': r['inp'] + [v + n for v in r['inp']], 'out': r['out'] + [v + n for v in r['out']]}

def procobj(g, env=default_env):
    """a diagram with grounds"""
    r, ix = graph_plain(g, env, ground=True)
    gr = sorted(ix[v] if v in ix else 0 for v in g.grounds())
    if 0 in gr: raise BadObject('a ground on a vertex that is not there')
    o, cost, width = elim_order(doubled(r, gr))
    if width > MAXWIDTH: raise NotRepresentable('diagram too wide (%d)' % width)
    return {'k': 'proc', 'g': r, 'gr': gr, 'ord': o}

def hop_rec(gt, env=default_env):
    nm = type(gt).__name__
    if nm == 'Measurement': return {'nm': 'MEAS', 'q': [int(gt.target) + 1], 'p': [] if gt.result_bit is None else [int(gt.result_bit) + 1]}
    if nm == 'DiscardBit': return {'nm': 'DISC', 'q': [], 'p': [int(gt.target) + 1]}
    return gate_rec(gt, env)
def hpart(c, qm=None, bm=None):
    """a hybrid circuit placed on the qubits qm and bits bm of a larger one"""
    return {'ops': [hop_rec(x) for x in c.gates], 'qm': [x + 1 for x in (qm if qm is not None else range(c.qubits))],
            'bm': [x + 1 for x in (bm if bm is not None else range(c.bits))]}
def hobj(q, b, *parts): return {'k': 'hcirc', 'h': {'q': q, 'b': b, 'parts': list(parts)}}
def hcobj(c): return hobj(int(c.qubits), int(c.bits), hpart(c))

def sobj(gs):
    return {'k': 'sum', 'gs': [graph_rec(g) for g in gs]}

def bad(why):
    return {'k': 'bad', 'why': str(why)[:200]}

def safe_obj(f):
    """export; an illegal object becomes a 'bad' object, judged by the spec"""
    try: return f()
    except BadObject as e: return bad(e)

# ------------------------------------------------------------- circuits
def gate_rec(gt, env=default_env):
    nm = type(gt).__name__
    q = lambda *a: [int(x) + 1 for x in a]
    ph = lambda x: phase_idx(x, True, env)
    raw = lambda x: phase_idx(x, False, env)
    if nm in ('ZPhase', 'Z', 'S', 'T'): return {'nm': 'ZPhase', 'q': q(gt.target), 'p': [ph(gt.phase)]}
    if nm in ('XPhase', 'NOT', 'SX'): return {'nm': 'XPhase', 'q': q(gt.target), 'p': [ph(gt.phase)]}
    if nm in ('YPhase', 'Y'): return {'nm': 'YPhase', 'q': q(gt.target), 'p': [raw(gt.phase)]}
    if nm == 'HAD': return {'nm': 'HAD', 'q': q(gt.target), 'p': []}
    if nm in ('CNOT', 'CZ', 'XCX', 'CY', 'CHAD', 'CSX', 'SWAP'):
        return {'nm': nm, 'q': q(gt.control, gt.target), 'p': []}
    if nm in ('CX',): return {'nm': 'CNOT', 'q': q(gt.control, gt.target), 'p': []}
    if nm in ('CRX', 'CRY', 'CRZ', 'RXX', 'CPhase'):
        return {'nm': nm, 'q': q(gt.control, gt.target), 'p': [raw(gt.phase)]}
    if nm == 'RZZ': return {'nm': 'RZZ', 'q': q(*gt.targets), 'p': [raw(gt.phase)]}
    if nm == 'ParityPhase': return {'nm': 'ParityPhase', 'q': q(*gt.targets), 'p': [ph(gt.phase)]}
    if nm == 'FSim': return {'nm': 'FSim', 'q': q(gt.control, gt.target), 'p': [raw(gt.theta), raw(gt.phi)]}
    if nm == 'CCZ': return {'nm': 'CCZ', 'q': q(gt.ctrl1, gt.ctrl2, gt.target), 'p': []}
    if nm == 'Tofolli': return {'nm': 'TOF', 'q': q(gt.ctrl1, gt.ctrl2, gt.target), 'p': []}
    if nm == 'CSWAP': return {'nm': 'CSWAP', 'q': q(gt.ctrl1, gt.ctrl2, gt.target), 'p': []}
    if nm == 'U2': return {'nm': 'U2', 'q': q(gt.target), 'p': [raw(gt.theta), raw(gt.phi)]}
    if nm == 'U3': return {'nm': 'U3', 'q': q(gt.target), 'p': [raw(gt.theta), raw(gt.phi), raw(gt.rho)]}
    if nm == 'CU3': return {'nm': 'CU3', 'q': q(gt.control, gt.target), 'p': [raw(gt.theta), raw(gt.phi), raw(gt.rho)]}
    if nm == 'CU': return {'nm': 'CU', 'q': q(gt.control, gt.target), 'p': [raw(gt.theta), raw(gt.phi), raw(gt.rho), raw(gt.gamma)]}
    raise NotRepresentable("gate " + nm)

def circ_rec(c, env=default_env):
    return {'n': int(c.qubits), 'gates': [gate_rec(g, env) for g in c.gates]}

def cobj(c, env=default_env):
    return {'k': 'circ', 'c': circ_rec(c, env)}

def mobj(rows, nin, nout):
    """explicit matrix; rows: list of lists of complex"""
    return {'k': 'mat', 'nin': nin, 'nout': nout, 'm': [[ring_of(x) for x in r] for r in rows]}

def tphases(rec):
    """all phases of a diagram record are multiples of pi/4: amplitudes lie in Z[w,1/2]"""
    q = N // 8
    return all(x % q == 0 for x in rec['ph']) and all(x % q == 0 for x in rec['sc']['nodes']) and rec['sc']['ph'] % q == 0

# ------------------------------------- objects built from other objects
def shape(o):
    """skeleton (types, edges, boundaries) of a composite graph object: only used to advise an elimination order"""
    if o['k'] == 'graph': g = o['g']; return {'n': g['n'], 'ty': list(g['ty']), 'ed': [list(e) for e in g['ed']], 'inp': list(g['inp']), 'out': list(g['out'])}
    if o['k'] == 'proc': return doubled(o['g'], o['gr'])
    if o['k'] == 'adj': s = shape(o['of']); s['inp'], s['out'] = s['out'], s['inp']; return s
    if o['k'] == 'permio': s = shape(o['of']); s['inp'] = [s['inp'][i - 1] for i in o['pi']]; s['out'] = [s['out'][i - 1] for i in o['po']]; return s
    if o['k'] == 'plug':
        s = shape(o['of'])
        for b in o['bs']: s['ty'][b - 1] = 1
        s['inp'] = [v for v in s['inp'] if v not in o['bs']]; s['out'] = [v for v in s['out'] if v not in o['bs']]
        return s
    a, b = shape(o['a']), shape(o['b']); n = a['n']
    r = {'n': n + b['n'], 'ty': a['ty'] + b['ty'], 'ed': a['ed'] + [[x + n, y + n, t] for x, y, t in b['ed']]}
    bi, bo = [v + n for v in b['inp']], [v + n for v in b['out']]
    if o['k'] == 'par': r['inp'] = a['inp'] + bi; r['out'] = a['out'] + bo
    else:
        for x, y in zip(a['out'], bi): r['ed'].append([x, y, 1]); r['ty'][x - 1] = 1; r['ty'][y - 1] = 1
        r['inp'] = a['inp']; r['out'] = bo
    return r

def _isgraph(o):
    while o['k'] not in ('graph', 'circ', 'sum', 'mat', 'bad', 'anc', 'prog', 'pat', 'proc', 'hcirc'): o = o.get('of') or o['a']
    return o['k'] in ('graph', 'proc')
def _ordered(o):
    if _isgraph(o):
        ordr, cost, width = elim_order(shape(o))
        if width > MAXWIDTH: raise NotRepresentable('diagram too wide (%d)' % width)
        o['ord'] = ordr
    return o
def then(a, b, mapping=None):
    o = {'k': 'then', 'a': a, 'b': b}
    if mapping is not None: o['map'] = [int(x) + 1 for x in mapping]
    return _ordered(o)
def par(a, b): return _ordered({'k': 'par', 'a': a, 'b': b})
def adj(a): return {'k': 'adj', 'of': a}
def plug(a, bs, es): return {'k': 'plug', 'of': a, 'bs': bs, 'es': es}
def permio(a, pi, po): return {'k': 'permio', 'of': a, 'pi': [i + 1 for i in pi], 'po': [i + 1 for i in po]}
def skeleton(o):
    while o['k'] not in ('graph', 'circ', 'sum', 'mat', 'bad', 'anc', 'prog', 'pat', 'proc', 'hcirc'): o = o.get('of') or o['a']
    return o

import contextlib, io as _io
def quiet(): return contextlib.redirect_stdout(_io.StringIO())
