"""C15: linear algebra over F2 against module F2."""
import core, tlc, random, copy
from framework import *
import pyzx as zx
from pyzx.linalg import Mat2, CNOTMaker
from pyzx import extract
from pyzx.circuit import Circuit
from pyzx.circuit.gates import CNOT
from pyzx.routing.parity_maps import CNOT_tracker

class Rec:
    """records row or column operations and performs them on a matrix"""
    def __init__(self, m): self.m, self.ops = m, []
    def row_add(self, a, b): self.ops.append([a, b]); self.m.row_add(a, b)
    def col_add(self, a, b): self.ops.append([a, b]); self.m.col_add(a, b)

def rows(m): return [[int(x) for x in r] for r in m.data]
def cn(l): return [[int(g.control), int(g.target)] for g in l]

def rmat(rng, r, c, kind=None):
    kind = kind or rng.choice(['u', 'u', 'sparse', 'lowrank', 'dense', 'zero'])
    if kind == 'zero' and rng.random() < .7: kind = 'u'
    if kind == 'lowrank':
        k = rng.randint(0, max(1, min(r, c) - 1)); b = [[rng.randint(0, 1) for _ in range(c)] for _ in range(k)]
        return [[sum(x) % 2 for x in zip(*[y for y in b if rng.random() < .5], [0] * c)] for _ in range(r)]
    p = {'u': .5, 'sparse': .2, 'dense': .8, 'zero': 0}[kind]
    return [[int(rng.random() < p) for _ in range(c)] for _ in range(r)]
def invertible(rng, n, ops=None):
    m = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(ops if ops is not None else rng.randint(0, 4 * n)):
        if n < 2: break
        a, b = rng.sample(range(n), 2); m[b] = [x ^ y for x, y in zip(m[a], m[b])]
    rng.shuffle(m) if rng.random() < .5 else None
    return m

def event(a, m, f, **k):
    """performs f on a fresh matrix; f returns the recorded fields"""
    M = Mat2(copy.deepcopy(m)); ok, r = call(f, M)
    e = {'a': a, 'm': m, 'exc': '' if ok else r, 'same': True, **k}
    if ok:
        keep = r.pop('keep', True); e.update(r)
        if keep: e['same'] = rows(M) == m
    return e

def gauss(rng, m, full, bs):
    x0 = rmat(rng, len(m), rng.randint(1, 4)); y0 = rmat(rng, rng.randint(1, 4), len(m))
    def f(M):
        x, y, piv = Rec(Mat2(copy.deepcopy(x0))), Rec(Mat2(copy.deepcopy(y0))), []
        rk = M.gauss(full_reduce=full, x=x, y=y, blocksize=bs, pivot_cols=piv)
        return dict(keep=False, ops=x.ops, after=rows(M), rank=rk, piv=piv, xin=x0, xout=rows(x.m), yin=y0, yout=rows(y.m), full=full)
    return event('gauss', m, f)

def opt(r, f): return {'some': False} if r is None else {'some': True, **f(r)}
def all_of(rng, m):
    """every question about one matrix"""
    ev = []
    R, C = len(m), len(m[0])
    for full in (False, True):
        for bs in {1, 2, 3, 6, C, C + 1, rng.randint(1, 8)} if R * C <= 16 else {1, 3, 6, rng.randint(1, C + 2)}: ev.append(gauss(rng, m, full, bs))
    ev.append(event('rank', m, lambda M: {'rank': M.rank()}))
    ev.append(event('inverse', m, lambda M: opt(M.inverse(), lambda i: {'inv': rows(i)})))
    for _ in range(3):
        if rng.random() < .6:
            x = [rng.randint(0, 1) for _ in range(C)]; b = [sum(p * q for p, q in zip(r, x)) % 2 for r in m]
        else: b = [rng.randint(0, 1) for _ in range(R)]
        ev.append(event('solve', m, lambda M: opt(M.solve(Mat2([[y] for y in b])), lambda s: {'x': [int(y[0]) for y in s.data]}), b=b))
    ev.append(event('nullspace', m, lambda M: {'vs': [list(map(int, v)) for v in M.nullspace()]}))
    ev.append(event('nullspace', m, lambda M: {'keep': False, 'vs': [list(map(int, v)) for v in M.nullspace(should_copy=False)]}))
    ev.append(event('factor', m, lambda M: (lambda p: {'m0': rows(p[0]), 'm1': rows(p[1])})(M.factor())))
    ev.append(event('transpose', m, lambda M: {'out': rows(M.transpose())}))
    b = rmat(rng, C, rng.randint(1, 4)); ev.append(event('mul', m, lambda M: {'out': rows(M * Mat2(copy.deepcopy(b)))}, b=b))
    b2 = copy.deepcopy(m)
    if rng.random() < .5: b2[rng.randrange(R)][rng.randrange(C)] ^= 1
    if rng.random() < .2: b2 = b2[:-1] or b2
    ev.append(event('eq', m, lambda M: {'ret': M == Mat2(b2)}, b=b2))
    i, j = rng.randrange(R), rng.randrange(R); k, l = rng.randrange(C), rng.randrange(C)
    if i != j:
        ev.append(event('row_add', m, lambda M: (M.row_add(i, j), {'keep': False, 'out': rows(M)})[1], i=i, j=j))
    if k != l: ev.append(event('col_add', m, lambda M: (M.col_add(k, l), {'keep': False, 'out': rows(M)})[1], i=k, j=l))
    ev.append(event('row_swap', m, lambda M: (M.row_swap(i, j), {'keep': False, 'out': rows(M)})[1], i=i, j=j))
    ev.append(event('col_swap', m, lambda M: (M.col_swap(k, l), {'keep': False, 'out': rows(M)})[1], i=k, j=l))
    p = rng.sample(range(R), R); q = rng.sample(range(C), C)
    ev.append(event('pick', m, lambda M: (M.permute_rows(p), {'keep': False, 'out': rows(M)})[1], rs=p, cs=list(range(C))))
    ev.append(event('pick', m, lambda M: (M.permute_cols(q), {'keep': False, 'out': rows(M)})[1], rs=list(range(R)), cs=q))
    def slc(n):
        if rng.random() < .3: a = rng.randrange(n); return a, [a]
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        s = rng.choice([slice(a, b), slice(None, b), slice(a, None), slice(None), slice(a, b, 2)])
        return s, list(range(*s.indices(n)))
    (s, rs), (t, cs) = slc(R), slc(C)
    if rs and cs:
        def get(M):
            x = M[s, t]
            return {'out': rows(x) if isinstance(x, Mat2) else [[int(x)]]}
        ev.append(event('pick', m, get, rs=rs, cs=cs))
        b3 = rmat(rng, len(rs), len(cs), 'u')
        def put(M):
            M[s, t] = Mat2(copy.deepcopy(b3)) if len(rs) * len(cs) > 1 or rng.random() < .5 else b3[0][0]
            return {'keep': False, 'out': rows(M)}
        ev.append(event('place', m, put, rs=rs, cs=cs, b=b3))
    ev.append(event('copy' if False else 'pick', m, lambda M: (lambda K: (K.row_swap(0, R - 1), K.data[0].__setitem__(0, 1 - K.data[0][0]), {'out': rows(M)})[2])(M.copy()), rs=list(range(R)), cs=list(range(C))))
    return ev

def cnots(rng, m):
    n = len(m); ev = []
    for o in (False, True):
        for lg in (False, True): ev.append(event('cnots', m, lambda M: {'cn': cn(M.to_cnots(optimize=o, use_log_blocksize=lg))}))
    mk = CNOTMaker()
    ev.append(event('cnots', m, lambda M: (M.copy().gauss(full_reduce=True, x=mk, blocksize=rng.randint(1, n + 1)), {'cn': cn(mk.cnots)})[1]))
    return ev

def helpers(rng, m):
    ev = []; n = len(m); C = len(m[0])
    for f, want in ((extract.greedy_reduction, 1), (extract.greedy_reduction_flat, 1), (extract.greedy_two_reduction, 2)):
        ev.append(event('reduction', m, lambda M: opt(f(M), lambda o: {'ops': [[int(a), int(b)] for a, b in o]}), want=want))
    if C >= n: ev.append(event('colswap', m, lambda M: {'map': [[int(a), int(b)] for a, b in extract.column_optimal_swap(M).items()]}))
    seq = [CNOT(*rng.sample(range(n), 2)) for _ in range(rng.randint(0, 12))] if n > 1 else []
    if rng.random() < .6 and n > 1: mk = CNOTMaker(); Mat2(copy.deepcopy(m)).gauss(x=mk, full_reduce=True); seq = mk.cnots
    ev.append(event('extra', m, lambda M: {'out': cn(extract.remove_extra_cnots(list(seq), M))}, cn=cn(seq)))
    ev.append(event('filter', m, lambda M: {'out': cn(extract.filter_duplicate_cnots(list(seq)))}, cn=cn(seq), n=n))
    a = list(seq); b = list(seq)
    if n > 1:
        if rng.random() < .5: i = rng.randint(0, len(b)); g = CNOT(*rng.sample(range(n), 2)); b[i:i] = [g] if rng.random() < .4 else [g, g]
        if len(b) > 1 and rng.random() < .5: i = rng.randrange(len(b) - 1); b[i], b[i + 1] = b[i + 1], b[i]
    ev.append(event('compare', m, lambda M: {'ret': bool(extract.compare_cnots(a, b, n))}, n=n, c1=cn(a), c2=cn(b)))
    p = rng.sample(range(n + 1), n + 1); items = [(i, p[i]) for i in range(n + 1)]; rng.shuffle(items)
    ev.append(event('swaps', m, lambda M: {'sw': [[int(a), int(b)] for a, b in extract.permutation_as_swaps(dict(items))]}, perm=p))
    return ev

def tracker(rng):
    n = rng.randint(2, 5); hist = []; init = [CNOT(*rng.sample(range(n), 2)) for _ in range(rng.randint(0, 4))] if rng.random() < .5 else []
    def f(M):
        if init:
            c0 = Circuit(n); c0.gates = list(init); t = CNOT_tracker.from_circuit(c0)
        else: c0 = Circuit(n); t = CNOT_tracker(n)
        o0 = cn(c0.gates)
        hist.extend(['r', g.control, g.target] for g in init)
        for _ in range(rng.randint(0, 10)):
            a, b = rng.sample(range(n), 2); k = rng.randrange(6)
            if k < 2: t.row_add(a, b); hist.append(['r', a, b])
            elif k < 4: t.col_add(a, b); hist.append(['c', a, b])
            elif k == 4: t.add_gate(CNOT(a, b)); hist.append(['r', a, b])
            else: t.add_gate("CNOT", a, b); hist.append(['r', a, b])
        if rng.random() < .3:
            t.update_matrix()
        return {'gates': cn(t.gates), 'mat': rows(t.matrix), 'orig0': o0, 'orig': cn(c0.gates), 'keep': False}
    return event('tracker', [[0]], f, n=n, hist=hist)

def put(c, site, ev):
    for e in ev: c.note(e['a'])
    c.traces.append({'site': site, 'ev': ev, 'desc': str(ev[0]['m'])})

def sweep(c, n=40, big=8):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        if i % 4 == 3:      # larger ones, where the block size depends on the size and rows repeat within blocks
            r, k = rng.randint(9, 22), rng.randint(9, 22); m = rmat(rng, r, k)
            put(c, 'large', [gauss(rng, m, full, bs) for full in (False, True) for bs in (6, rng.randint(1, 8))] + [event('rank', m, lambda M: {'rank': M.rank()})])
            m = invertible(rng, rng.randint(9, 18)); put(c, 'large', cnots(rng, m))
        r, k = rng.randint(1, big), rng.randint(1, big)
        put(c, 'random', all_of(rng, rmat(rng, r, k)))
        m = invertible(rng, rng.randint(1, big)); put(c, 'synthesis', cnots(rng, m))
        if rng.random() < .5: put(c, 'random', all_of(rng, m))
        m = rng.choice([lambda: rmat(rng, rng.randint(1, 6), rng.randint(1, 7)), lambda: invertible(rng, rng.randint(2, 6))])()
        put(c, 'helpers', helpers(rng, m))
        put(c, 'tracker', [tracker(rng)])

def replay(c, ms=()):
    rng = c.rng
    for i in range(c.shard, len(ms), c.nshards):
        if not c.more(): break
        m = ms[i]; ev = all_of(rng, m) + helpers(rng, m)
        if len(m) == len(m[0]) and Mat2(copy.deepcopy(m)).rank() == len(m): ev += cnots(rng, m)
        put(c, 'enumerated', ev)

def main(chk):
    q = chk.tier == 'quick'
    ms = []
    for s in ('22', '23', '32', '33', '14') if q else ('22', '23', '32', '33', '14', '34', '43'):
        ms += [x['m'] for x in tlc.printed(chk.model('F2Gen.tla', 'F2Gen%s.cfg' % s, workers=4)) if 'm' in x]
    chk.extra['matrices_enumerated_by_TLC'] = len(ms)
    cases = chk.gen('checks.c15', [('sweep', dict(n=15 if q else 300, big=8 if q else 12)), ('replay', dict(ms=ms))], 25 if q else 300)
    chk.validate_with('F2Trace.tla', 'F2Trace.cfg', cases, shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
