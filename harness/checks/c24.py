"""C24: symbolic parameters obey polynomial arithmetic."""
import core, gens, random, copy
from fractions import Fraction as F
from framework import *
import tlc
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.symbolic import Poly, Term, Var, new_var, new_const, parse

CAP = 10**6
def num(x):
    if isinstance(x, complex):
        if x.imag: raise NotRepresentable('complex')
        x = x.real
    f = F(x)
    if abs(f.numerator) > CAP or f.denominator > CAP: raise NotRepresentable('wide')
    return f
def dump(p):
    if isinstance(p, (int, float, F)): p = Poly([(p, Term([]))])
    r = []
    for co, t in p.terms:
        f = num(co); m = {}
        for v, k in t.vars: m.setdefault(v.name, []).append(k)
        if any(len(k) > 1 or not isinstance(k[0], int) or k[0] < 0 for k in m.values()): raise BadObject('exponents %r' % (m,))
        r.append([f.numerator, f.denominator, [[v, k[0]] for v, k in sorted(m.items())]])
    return sorted(r)

class Rec:
    def __init__(self, c, bools, site, desc=''): self.c, self.bools, self.site, self.desc, self.ev = c, bools, site, desc, []
    def op(self, a, x, f, y=None, out='r', **kw):
        """x, y dumps taken before; f the operation"""
        ok, r = call(f); self.c.note(a); e = dict(a=a, exc='' if ok else r, x=x, y=y if y is not None else [], **kw)
        if ok:
            if out == 'r':
                try: e['r'] = dump(r)
                except NotRepresentable: self.c.skipped += 1; return r
                except BadObject as b: e['exc'] = str(b); e['r'] = []
            else: e[out] = r
        self.ev.append(e); return r if ok else None
    def done(self): self.c.traces.append(dict(site=self.site, desc=self.desc, bools=sorted(self.bools), ev=self.ev))

def of_record(r, types):
    p = Poly([])
    for n, d, m in r:
        t = new_const(F(n, d))
        for v, k in m: t = t * new_var(v, types) ** k
        p = p + t
    return p

def binary(R, p, q):
    x, y = dump(p), dump(q)
    R.op('add', x, lambda: p + q, y); R.op('sub', x, lambda: p - q, y); R.op('mul', x, lambda: p * q, y)
    def eq():
        e = p == q; return e, (not e or hash(p) == hash(q)), not (p != q)
    ok, r = call(eq); R.c.note('eq')
    R.ev.append(dict(a='eq', exc=r if not ok else '' if r[0] == r[2] else '== and != agree', x=x, y=y, b=bool(ok and r[0]), h=bool(ok and r[1])))
    if not any(isinstance(c, complex) for c, t in p.terms + q.terms):
        ok, r = call(lambda: (p < q, p > q, q > p, p == q)); R.c.note('order')
        R.ev.append(dict(a='order', exc='' if ok else r, x=x, y=y, **dict(zip(('lt', 'gt', 'rgt', 'eq'), r if ok else [False] * 4))))
    # division: of a product by a factor, and of anything by anything if it is not refused
    def anyq():
        try: return p / q
        except (ValueError, ArithmeticError): return None
    if y:
        mixed = any(v.is_bool for v in p.free_vars() | q.free_vars())
        if not mixed and not any(isinstance(co, float) for co, t in p.terms + q.terms): R.op('quotient', x, lambda: (p * q) / q)
        ok, r = call(anyq)
        if not ok: R.ev.append(dict(a='anyquotient', exc=r, x=x, y=y))
        elif r is not None and not mixed: R.op('anyquotient', x, lambda: r, y)
    # the same value reached in another way is equal
    ok, r = call(lambda: (p + q, q + p, (p - q) + q + q))
    if ok:
        for a, b in ((r[0], r[1]), (r[0], r[2])):
            try: da, db = dump(a), dump(b)
            except (NotRepresentable, BadObject): continue
            e = a == b; R.ev.append(dict(a='eq', exc='', x=da, y=db, b=e, h=not e or hash(a) == hash(b)))
    R.ev.append(dict(a='untouched', exc='', x=dump(p), y=x)); R.ev.append(dict(a='untouched', exc='', x=dump(q), y=y))

def unary(R, p, rng, types, asg):
    x = dump(p)
    R.op('neg', x, lambda: -p); R.op('copy', x, lambda: copy.deepcopy(p)); R.op('copy', x, p.copy)
    # coefficients of Boolean terms are kept modulo 2, so higher powers are only determined without them or over the integers
    whole = all(F(co).denominator == 1 for co, t in p.terms) and all(types[v.name] for co, t in p.terms for v, k in t.vars)
    for k in (0, 1, 2, 3) if whole or not any(types[v.name] for v in p.free_vars()) else (0, 1, 2): R.op('pow', x, lambda: p ** k, k=k)
    for v in rng.sample([2, 3, F(1, 2), F(-1, 3), 0.5, -1, 0, 1, F(5, 4)], 3):
        y = dump(v)
        R.op('add', x, lambda: p + v, y); R.op('add', x, lambda: v + p, y); R.op('sub', x, lambda: p - v, y); R.op('sub', y, lambda: v - p, x)
        R.op('mul', x, lambda: p * v, y); R.op('mul', x, lambda: v * p, y)
        if v: R.op('div', x, lambda: p / v, y)
    R.op('mod', x, lambda: p % 2)
    R.op('free', x, lambda: sorted(v.name for v in p.free_vars()), out='v')
    R.op('is_pauli', x, lambda: bool(p.is_pauli), out='b'); R.op('is_clifford', x, lambda: bool(p.is_clifford), out='b')
    R.op('degree', x, lambda: p.degree, out='k')
    for val in asg:
        R.op('subst', x, lambda: p.substitute({Var(n, types): w for n, w in val.items()}), val=[[n, F(w).numerator, F(w).denominator] for n, w in sorted(val.items())])
    tt = dict(types)
    R.op('parse', x, lambda: parse(str(p), lambda n: new_var(n, tt)))
    R.ev.append(dict(a='untouched', exc='', x=dump(p), y=x))

def enumerated(c, recs):
    for i, r in enumerate(recs):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        types = {'x': False, 'b': True, 'c': True}
        if i % 3 == 0: types = {k: types[k] for k in ('c', 'b', 'x')}
        R = Rec(c, {'b', 'c'}, 'enumerated', '%s, %s' % (r['p'], r['q']))
        try:
            p, q = of_record(r['p'], types), of_record(r['q'], types)
            R.op('copy', dump_rec(r['p']), lambda: p); R.op('copy', dump_rec(r['q']), lambda: q)
            binary(R, p, q)
            if i % 4 == 0: unary(R, p, c.rng, types, [{'b': 1}, {'x': F(1, 3), 'c': 0}, {'x': -1, 'b': 0, 'c': 1}])
            if r['q'] and i % 4 == 1:
                d = call(lambda: p * q)
        except NotRepresentable: c.skipped += 1
        R.done()
def dump_rec(r): return sorted([n, d, sorted(m)] for n, d, m in r)

NAMES = ['a', 'b', 'c', 'x', 'y', 'theta', 'x1', 'x_2', 'Z']
def a_coef(rng, fl=.15):
    r = rng.random()
    if r < fl: return rng.choice([0.5, 0.25, 1.5, -0.75, 2.0])
    return rng.choice([1, 1, 1, 2, 3, -1, -2, F(1, 2), F(1, 4), F(3, 4), F(-1, 3), F(7, 4), F(5, 8)])
def poly(rng, types, nterms=None, deg=2, fl=.15):
    p = Poly([])
    for _ in range(rng.randint(1, 4) if nterms is None else nterms):
        t = new_const(1)
        for _ in range(rng.randint(0, deg)): t = t * new_var(rng.choice(list(types)), types)
        p = p + t * a_coef(rng, fl)
    return p
def a_types(rng):
    return {n: rng.random() < .5 for n in rng.sample(NAMES, rng.randint(1, 4))}
def a_value(rng, b): return rng.choice([0, 1]) if b else rng.choice([0, 1, -1, 2, F(1, 2), F(1, 3), F(5, 4), F(7, 8), 0.5])

def randomly(c, n):
    rng = c.rng
    for _ in range(n):
        if not c.more(): break
        types = a_types(rng)
        try:
            ps = [poly(rng, types) for _ in range(2)]; R = Rec(c, {n for n, b in types.items() if b}, 'random', '; '.join(map(str, ps)) + ' %s' % types)
            binary(R, *ps)
            asg = [{n: a_value(rng, types[n]) for n in rng.sample(list(types), rng.randint(0, len(types)))} for _ in range(3)] + [{n: a_value(rng, types[n]) for n in types}]
            unary(R, ps[0], rng, types, asg)
            # longer expressions
            acc = ps[0]
            for _ in range(rng.randint(1, 5)):
                k = rng.choice(['add', 'mul', 'sub', 'neg', 'sq']); y = poly(rng, types, rng.randint(1, 2), 1); x = dump(acc)
                if len(x) > 12: break
                nx = R.op({'sq': 'pow'}.get(k, k), x, {'add': lambda: acc + y, 'mul': lambda: acc * y, 'sub': lambda: acc - y, 'neg': lambda: -acc, 'sq': lambda: acc ** 2}[k], dump(y), k=2)
                if nx is None: break
                acc = nx
            R.done()
        except NotRepresentable: c.skipped += 1

def expression(rng, types):
    """text and the polynomial it denotes, as a dump"""
    terms = []; txt = []
    for _ in range(rng.randint(1, 4)):
        co = F(1); mon = {}; facs = []; lead = ''
        k = rng.random()
        if k < .5:
            lead = rng.choice(['2', '3', '-1', '1/2', '-3/4', '0.5', '7']); co *= F(lead)
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < .65:
                v = rng.choice(list(types)); e = rng.choice([1, 1, 1, 2, 3]); mon[v] = mon.get(v, 0) + e
                facs.append(v if e == 1 and rng.random() < .9 else '%s^%d' % (v, e))
            elif r < .75: facs.append(rng.choice(['pi', '\\pi']))
            elif r < .9: a, b = rng.choice([(1, 2), (1, 4), (3, 4)]); facs.append('pi/%d' % b if a == 1 else '%dpi/%d' % (a, b)); co *= F(a, b)
            else: facs.append('3'); co *= 3
        sp = rng.choice(['', ' ']); f0 = facs[0]
        if lead and (f0[0].isdigit()): txt.append(lead + '*' + ('*').join(facs))
        else: txt.append(lead + (sp if lead else '') + (sp + '*' + sp).join(facs))
        terms.append([co.numerator, co.denominator, [[v, 1 if types[v] else e] for v, e in sorted(mon.items())]])
    s = rng.choice([' + ', '+']).join(txt)
    if rng.random() < .15: s = '( ' + s + ' )'
    return s, terms

def parsing(c, n):
    rng = c.rng
    for _ in range(n):
        if not c.more(): break
        types = a_types(rng); s, want = expression(rng, types)
        R = Rec(c, {n for n, b in types.items() if b}, 'parsing', s)
        tt = dict(types); p = R.op('parse', want, lambda: parse(s, lambda n: new_var(n, tt)))
        if p is not None:
            try: R.op('parse', dump(p), lambda: parse(str(p), lambda n: new_var(n, tt)))
            except NotRepresentable: pass
        R.done()

# ------------------------------------------------ diagrams with symbolic phases
def value(p, val):
    """the harness' own evaluation"""
    if not isinstance(p, Poly): return F(p) if not isinstance(p, complex) else p
    r = F(0)
    for co, t in p.terms:
        x = F(co)
        for v, k in t.vars: x *= F(val[v.name]) ** k
        r += x
    return r
def plug(g, val):
    h = copy.deepcopy(g)
    for v in h.vertices():
        if isinstance(h.phase(v), Poly): h.set_phase(v, value(h.phase(v), val))
    s = h.scalar
    s.phase = value(s.phase, val); nodes = [value(n, val) % 2 for n in s.phasenodes]; s.phasenodes = []
    for n in nodes: s.add_node(n)
    return h

def sym_phase(rng, types):
    p = poly(rng, types, rng.choice([1, 1, 2]), 1, 0)
    p = Poly([(rng.choice([1, 1, 1, F(1, 2), F(1, 4), F(3, 4)]) if t.vars else rng.choice([F(1), F(1, 2), F(1, 4), F(3, 2)]), t) for _, t in p.terms])
    return p

S = zx.simplify
STRATS = [S.spider_simp, S.id_simp, S.lcomp_simp, S.pivot_simp, S.pivot_gadget_simp, S.pivot_boundary_simp, S.gadget_simp, S.supplementarity_simp, S.copy_simp,
          S.to_gh, S.to_graph_like, S.interior_clifford_simp, S.clifford_simp, S.full_reduce, S.phase_free_simp, S.to_rg]
RULES = STRATS[2:9]
def diagrams(c, n, full=False):
    rng = c.rng
    for _ in range(n):
        if not c.more(): break
        types = {n: b for n, b in zip(rng.sample(['a', 'b', 'x', 'y'], 3), rng.choice([(True, True, True), (True, True, False), (True, False, False)]))}
        k = rng.random()
        if k < .35: g = gens.rand_diagram(rng, gens.size(rng, 2, 6, 11), rng.randint(0, 2), rng.randint(0, 2), rng.choice(['T', 'cliff', 'pauli']), gl=rng.random() < .5)
        elif k < .5: g = gens.gadget_diagram(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice(['T', 'cliff']))
        elif k < .6: g = gens.star_diagram(rng, 'cliff')
        else: g = gens.rand_circuit(rng, rng.randint(1, 3), rng.randint(2, 14), rng.choice(['cliff', 'T', 'zx']), rng.choice(['cliff', 'T'])).to_graph()
        g.variable_types = types
        sp = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]
        if not sp: continue
        for v in rng.sample(sp, rng.randint(1, min(len(sp), 4))): g.set_phase(v, sym_phase(rng, types))
        vals = [{n: (rng.choice([0, 1]) if b else rng.choice([F(1, 2), 0, F(1, 4), 1, F(7, 4), F(3, 2)])) for n, b in types.items()} for _ in range(2)]
        runs = rng.sample(STRATS, 3) + [S.full_reduce]
        res = []
        for f in runs:
            h = copy.deepcopy(g)
            if f in RULES: S.to_graph_like(h)
            ok, r = call(f, h, quiet=True) if f not in (S.to_gh, S.to_rg, S.to_graph_like) else call(f, h)
            res.append((f.__name__, ok, h if ok else r)); c.note('symbolic ' + f.__name__)
        desc = '%s %s' % (gens.dump(g) if 0 else [(v, int(g.type(v)), str(g.phase(v)), [(w, int(g.edge_type(g.edge(v, w)))) for w in g.neighbors(v)]) for v in g.vertices()], types)
        for val in vals:
            try:
                st = core.gobj(plug(g, val)); ev = []
                for nm, ok, h in res:
                    if not ok: ev.append((nm, 'eq', bad(h))); continue
                    unk = h.scalar.is_unknown
                    h2 = plug(h, val); h2.scalar.is_unknown = False
                    if unk: h2.scalar = zx.graph.scalar.Scalar()
                    ev.append((nm, 'unk' if unk else 'eq', export_result(core.gobj, h2, strict=False)))
                c.add('diagrams', st, ev, desc + ' at %s' % {k: str(v) for k, v in val.items()})
            except NotRepresentable: c.skipped += 1

def main(chk):
    q = chk.tier == 'quick'
    recs = [x for x in tlc.printed(chk.model('PolyGen.tla', 'PolyGen1.cfg', workers=8)) if 'p' in x]
    if not q: chk.model('PolyGen.tla', 'PolyGen2.cfg', workers=8)
    recs.sort(key=str); random.Random(chk.seed).shuffle(recs)
    if q: recs = recs[:500]
    t = chk.gen('checks.c24', [('enumerated', dict(recs=recs)), ('randomly', dict(n=16 if q else 500)), ('parsing', dict(n=25 if q else 500)), ('diagrams', dict(n=45 if q else 800))], 10 if q else 200)
    chk.validate([x for x in t if 'bools' not in x])
    chk.validate_with('PolyTrace.tla', 'PolyTrace.cfg', [x for x in t if 'bools' in x])
    return chk.finish('a case is non-trivial when it is not identical to another')
