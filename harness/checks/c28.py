"""C28: phase polynomials, parity matrices and third order duplicate and destroy against modules Todd and ToddTrace."""
import core, tlc, gens, random, re, sys, os, io, contextlib
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx import todd as Td, settings
from pyzx.parity_network import parity_network
from pyzx.linalg import Mat2
from pyzx.circuit import gates as G
from pyzx.simplify import full_reduce

def cols_of(m): return [[int(x) for x in r] for r in zip(*m.data)]
def mat(n, cols): return Mat2([[c[i] for c in cols] for i in range(n)])
def ang(p):
    k = F(p) * 4
    if k.denominator != 1: raise NotRepresentable('not a multiple of pi/4')
    return int(k) % 8
def ops(gates):
    r = []
    for g in gates:
        if isinstance(g, G.ZPhase): r.append(['z', int(g.target), ang(g.phase)])
        elif isinstance(g, G.CZ): r.append(['cz', int(g.control), int(g.target)])
        elif isinstance(g, G.CNOT): r.append(['cn', int(g.control), int(g.target)])
        elif isinstance(g, G.ParityPhase): r.append(['p', ang(g.phase), [int(t) for t in g.targets]])
        else: raise BadObject('gate %s' % g)
    return r
def par(n, s): return [1 if i in s else 0 for i in range(n)]
def terms(p): return [[par(p.qubits, t), int(v)] for t, v in sorted(p.terms.items())]
def read(n, s):
    """a printed polynomial"""
    r = []
    for t in [x for x in s.split('+') if x.strip()]:
        m = re.fullmatch(r'\s*(\d*)((?:x\d+@)*x\d+)\s*', t)
        if not m: raise BadObject('text %r' % s)
        r.append([par(n, {int(x[1:]) for x in m[2].split('@')}), int(m[1] or 1)])
    return r

def gates(rng, n, k, w=None):
    r = []; w = w or rng.choice(['mixed', 'mixed', 'T', 'cz'])
    for _ in range(k):
        x = rng.random(); q = rng.randrange(n)
        if n > 1 and x < (.3 if w == 'T' else .45): r.append(G.CNOT(*rng.sample(range(n), 2)))
        elif n > 1 and w != 'T' and x < (.8 if w == 'cz' else .55): r.append(G.CZ(*rng.sample(range(n), 2)))
        else:
            r.append(rng.choice([G.T(q), G.T(q), G.T(q, adjoint=True), G.S(q), G.S(q, adjoint=True), G.Z(q), G.ZPhase(q, F(rng.randrange(-8, 9), 4))]))
    return r

def rand_cols(rng, n, k):
    pool = [[rng.randint(0, 1) for _ in range(n)] for _ in range(k)]; x = rng.random()
    if x < .3: pool = [rng.choice(pool) for _ in range(k)] if pool else pool
    elif x < .7: pool = [p for p in pool if any(p)]
    return pool

def polynomials(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = gens.size(rng, 1, 6, 9); gs = gates(rng, q, gens.size(rng, 0, 25, 60)); ev = []; ps = []
        try:
            e = dict(a='poly', n=q, ops=ops(gs), exc='')
            def f():
                p, ex = Td.phase_gates_to_poly(gs, q); ps.append(p)
                m = p.to_par_matrix(); cols = cols_of(m) if p.terms else []
                return dict(rows=[par(q, s.par) for s in ex], terms=terms(p), cols=cols, gates=ops(Td.par_matrix_to_gates(m)) if cols else [], text=read(q, str(p)))
            ok, r = call(f); c.note('polynomial of a circuit')
            if ok: e.update(r)
            else: e['exc'] = r
            ev.append(e)
            hs = gates(rng, q, rng.randint(0, 10)) if rng.random() < .7 else [g for g in gs if rng.random() < .8]
            ok, r = call(lambda: Td.phase_gates_to_poly(hs, q)[0])
            if ok and ps:
                p = ps[0]; x, y = terms(p), terms(r); e = dict(a='plus', n=q, exc='', x=x, y=y)
                if rng.random() < .5: ok, s = call(lambda: p + r)
                else:
                    s = p.copy(); ok, err = call(s.add_polynomial, r); s = s if ok else err
                c.note('sum of polynomials'); e.update(dict(r=terms(s), x2=terms(p), y2=terms(r)) if ok else dict(exc=s)); ev.append(e)
            def deeper():
                m = Td.MultiLinearPoly(); ms = []
                for _ in range(rng.randint(1, 3)):
                    k = rand_cols(rng, q, rng.randint(1, 8)); ms.append((k, rng.random() < .4))
                if rng.random() < .6: ms += [(list(reversed(k)), not b) for k, b in ms]     # everything cancels
                if rng.random() < .6: k = rand_cols(rng, q, rng.randint(1, 5)); ms += [(k, False)] * 2
                if rng.random() < .3: ms.append(([rng.choice(k) for k, _ in ms if k], rng.random() < .5))
                rng.shuffle(ms)
                for k, b in ms:
                    if rng.random() < .5: m.add_par_matrix(mat(q, k), b)
                    else:
                        for x in k: m.add_parity(x, b)
                e = dict(a='multi', n=q, exc='', mats=[dict(cols=k, minus=b) for k, b in ms], refused=False, gates=[])
                try: e['gates'] = ops(m.to_clifford())
                except ValueError: e['refused'] = True
                e.update(l=[[int(k), int(v)] for k, v in m.l.items()], q=[[int(a), int(b), int(v)] for (a, b), v in m.q.items()], c=[list(map(int, t)) for t in m.c])
                return e
            ok, e = call(deeper); c.note('multilinear form'); ev.append(e if ok else dict(a='multi', exc=e))
            c.traces.append(dict(site='polynomials', desc=' '.join(map(str, gs)), ev=ev, own=True))
        except NotRepresentable: c.skipped += 1
        except BadObject as x: c.traces.append(dict(site='polynomials', desc=' '.join(map(str, gs)), ev=[dict(a='poly', exc=str(x))], own=True))

def steps(c, site, n, cols, external=False):
    ev = []; rng = c.rng
    def single():
        ok, r = call(Td.do_todd_single, mat(n, cols)); c.note('one step')
        return dict(a='single', n=n, exc='' if ok else r, cols=cols, out=cols_of(r[0]) if ok else [], r=int(r[1]) if ok else 0)
    def trivial():
        m = Mat2([list(x) for x in cols]); ok, r = call(Td.remove_trivial_cols, m); c.note('trivial columns')
        return dict(a='trivial', n=n, exc='' if ok else r, cols=cols, out=[list(map(int, x)) for x in m.data], r=int(r) if ok else 0)
    if cols: ev += [single(), trivial()]
    if cols or rng.random() < .5:
        m = mat(n, cols); before = cols_of(m); ok, r = call(Td.todd_iter, m); c.note('iterated')
        ev.append(dict(a='iter', n=n, exc='' if ok else r, cols=cols, out=cols_of(r) if ok else [], external=external))
        if ok and cols_of(m) != before: ev.append(dict(a='iter', exc='the matrix given to todd_iter was changed'))
    sig = [x for x in cols if any(x)]
    ok, r = call(parity_network, n, [list(x) for x in sig]); c.note('parity network')
    ev.append(dict(a='network', n=n, exc='' if ok else r, cols=sig, ops=ops(r) if ok else []))
    c.traces.append(dict(site=site, desc='%d qubits, columns %s' % (n, cols), ev=ev, own=True))

def enumerated(c, ms=()):
    for i in range(c.shard, len(ms), c.nshards):
        if not c.more(): break
        steps(c, 'matrices enumerated by TLC', ms[i]['n'], ms[i]['cols'])

def matrices(c, n, big):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = gens.size(rng, 1, big, big + 2); k = rng.randint(0, 3 * q)
        cols = rand_cols(rng, q, k)
        if rng.random() < .3 and q > 2:    # hidden relations: columns with one vector added to many
            z = [rng.randint(0, 1) for _ in range(q)]; cols += [[a ^ b for a, b in zip(x, z)] for x in cols if rng.random() < .7]
        steps(c, 'random matrices', q, cols)

STUB = r"""import sys
rows = [list(map(int, l.split())) for l in open(sys.argv[2])]
cols = [c for c in zip(*rows)]; out = []
for x in cols:
    if not any(x): continue
    if x in out: out.remove(x)
    else: out.append(x)
print('Input gate synthesis matrix:\n\nOutput gate synthesis matrix:\n')
for r in zip(*out): print(''.join(map(str, r)))
print('Successful\nTotal time = 0.1s')
"""

def simp(c, n, big):
    rng = c.rng; d = None
    for i in range(n):
        if not c.more(): break
        q = gens.size(rng, 1, big, big + 2); gs = gates(rng, q, rng.randint(0, 40))
        try:
            e = dict(a='simp', n=q, exc='', ops=ops(gs)); ok, r = call(Td.todd_simp, gs, q); c.note('todd_simp')
            if ok: e.update(gates=ops(r[0]), perm=[int(r[1].get(k, k)) for k in range(q)])
            else: e['exc'] = r
            ev = [e]
            if ops(gs) != e['ops']: ev.append(dict(a='simp', exc='the gates given to todd_simp were changed'))
            c.traces.append(dict(site='todd_simp', desc='%d qubits: %s' % (q, ' '.join(map(str, gs))), ev=ev, own=True))
        except NotRepresentable: c.skipped += 1
        except BadObject as x: c.traces.append(dict(site='todd_simp', desc=' '.join(map(str, gs)), ev=[dict(a='simp', exc=str(x))], own=True))

def external(c, n):
    """a stand-in for the TOpt program, which removes trivial columns only"""
    import tempfile
    rng = c.rng
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'topt.py'); open(f, 'w').write(STUB); old = settings.topt_command
        try:
            settings.topt_command = [sys.executable, '-S', f]
            for i in range(n):
                if not c.more(): break
                q = rng.randint(1, 5); cols = rand_cols(rng, q, rng.randint(1, 8))
                s = {tuple(x) for x in cols if any(x) and cols.count(x) % 2}
                if s: steps(c, 'TOpt', q, cols, external=True)
        finally: settings.topt_command = old

def diagrams(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        x = rng.random()
        if x < .6:
            q = rng.randint(1, 5); circ = gens.rand_circuit(rng, q, rng.randint(5, 50), rng.choice(['T', 'cnotT', 'cnotT', 'opt']), 'T')
            g = circ.to_graph(); desc = gens.circ_desc(circ)
        else: g = gens.gadget_diagram(rng, rng.randint(2, 5), rng.randint(1, 7), rng.choice(['T', 'T', 'any'])); desc = gens.dump(g)
        ok, r = call(full_reduce, g)
        if not ok: continue
        try:
            start = core.gobj(g); t0 = zx.tcount(g); before = gens.dump(g)
            with contextlib.redirect_stdout(io.StringIO()): ok, r = call(Td.todd_on_graph, g)
            c.note('todd_on_graph'); ev = [('todd_on_graph', 'prop', export_result(core.gobj, g) if ok else bad(r))]
            c.add('todd_on_graph', start, ev, desc)
            if ok: c.traces.append(dict(site='todd_on_graph', desc=before, own=True, ev=[dict(a='single', exc='' if zx.tcount(g) <= t0 else 'more T gates', n=1, cols=[], out=[], r=0)]))
        except NotRepresentable: c.skipped += 1

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in ('37', '44' if q else '46'): ms += [x for x in tlc.printed(chk.model('ToddGen.tla', 'ToddGen%s.cfg' % k, workers=4)) if 'cols' in x]
    chk.extra['matrices_enumerated_by_TLC'] = len(ms)
    random.Random(chk.seed).shuffle(ms)
    if q: ms = ms[:900]
    t = chk.gen('checks.c28', [('polynomials', dict(n=60 if q else 2000)), ('enumerated', dict(ms=ms)), ('matrices', dict(n=25 if q else 400, big=5 if q else 6)),
                               ('simp', dict(n=30 if q else 800, big=4 if q else 6)), ('external', dict(n=2 if q else 10)), ('diagrams', dict(n=25 if q else 600))], 12 if q else 250)
    chk.validate([x for x in t if 'own' not in x])
    chk.validate_with('ToddTrace.tla', 'ToddTrace.cfg', [x for x in t if 'own' in x], shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
