"""C20: equality verification never accepts different circuits."""
import core, gens, itertools
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx.circuit import Circuit
from pyzx.circuit import gates as G

def rewrite(rng, c):
    """another circuit, usually for the same unitary (what it denotes is judged by the specification)"""
    k = rng.randrange(7); d = c.copy(); n = c.qubits
    if k == 0: return d
    if k == 1: return d.to_basic_gates()
    if k == 2:
        g = c.to_graph(); zx.full_reduce(g); return zx.extract_circuit(g)
    if k == 3: return zx.optimize.basic_optimization(c.to_basic_gates(), do_swaps=rng.random() < .5)
    if k == 4:      # insert an inverse pair
        g = gens.rand_gate(rng, n, rng.choice(['cliff', 'zx']), 'T'); i = rng.randint(0, len(d.gates)); d.gates[i:i] = [g, g.to_adjoint()]; return d
    if k == 5:
        gs = d.gates
        for _ in range(10):      # commuting neighbours
            if len(gs) > 1:
                i = rng.randrange(len(gs) - 1); a, b = gs[i], gs[i + 1]
                if not set(qs(a)) & set(qs(b)): gs[i], gs[i + 1] = b, a
        return d
    for q in range(n): d.gates += [G.HAD(q), G.HAD(q)]
    return d
def qs(g): return [x - 1 for x in core.gate_rec(g)['q']]

def perturb(rng, d, cliff):
    """a small change"""
    n = d.qubits; d = d.copy(); k = rng.randrange(8); i = rng.randint(0, len(d.gates)); q = rng.randrange(n)
    if k == 0: d.gates.insert(i, G.ZPhase(q, rng.choice([F(1), F(1, 2)] + ([] if cliff else [F(1, 4), F(1, 64), F(-1, 4)]))))
    elif k == 1: d.gates.insert(i, G.HAD(q))
    elif k == 2: d.gates.insert(i, G.XPhase(q, F(1)))
    elif k == 3 and n > 1: d.gates.insert(i, rng.choice([G.CZ, G.CNOT, G.SWAP])(*rng.sample(range(n), 2)))
    elif k == 4 and d.gates: d.gates.pop(rng.randrange(len(d.gates)))
    elif k == 5 and n > 1:
        p = rng.sample(range(n), n)
        for a in range(n):      # permute the outputs
            while p[a] != a:
                b = p[a]; d.gates.append(G.SWAP(a, b) if rng.random() < .5 else G.SWAP(b, a)); p[a], p[b] = p[b], p[a]
    elif k == 6: d.gates.append(G.HAD(q))
    elif k == 7: d.gates.append(G.ZPhase(q, F(1))); d.gates.append(G.XPhase(rng.randrange(n), F(1)))
    return d

def pair(c, rng, a, b, cliff, site):
    swaps = rng.random() < .4
    try:
        oa, ob = core.cobj(a), core.cobj(b); desc = '%s ;; %s%s' % (gens.circ_desc(a), gens.circ_desc(b), ' (up to swaps)' if swaps else '')
        ok, r = call(a.verify_equality, b, *([True] if swaps else []))
        if not ok:
            c.add(site, oa, [('verify_equality', 'eq', core.bad(r))], desc); return
        if core.cobj(a) != oa or core.cobj(b) != ob: c.add(site, oa, [('verify_equality', 'eq', core.bad('the arguments were changed'))], desc); return
        c.note('%s %s%s' % (site, bool(r), ' swaps' if swaps else ''))
        if swaps: start, o, rel = core.adj(oa), core.adj(ob), ('perm' if r else 'neqperm')
        else: start, o, rel = oa, ob, ('prop' if r else 'neq')
        if r or cliff: c.add(site, start, [('verify_equality', rel, o)], desc)
    except NotRepresentable: c.skipped += 1

def sweep(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        cliff = rng.random() < .5; q = gens.size(rng, 1, 4, 6)
        a = gens.rand_circuit(rng, q, rng.choice([0, 2, 6, 15, 25]), *(('cliff', 'cliff') if cliff else (rng.choice(['T', 'zx', 'opt', 'basic', 'full']), rng.choice(['T', 'nonc', 'any']))))
        ok, b = call(rewrite, rng, a)
        if not ok or b.qubits != q: continue
        pair(c, rng, a, b, cliff, 'rewritten')
        d = perturb(rng, b, cliff); pair(c, rng, a, d, cliff, 'changed')
        pair(c, rng, a, perturb(rng, d, cliff), cliff, 'changed')
        if i % 3 == 0: pair(c, rng, a, gens.rand_circuit(rng, q, rng.randint(0, 6), 'cliff' if cliff else 'T', 'T'), cliff, 'unrelated')
        if i % 5 == 0 and not cliff:     # other numbers of qubits are never accepted
            e = gens.rand_circuit(rng, q + rng.randint(1, 2), 4, 'cliff'); x, y = (a, e) if rng.random() < .5 else (e, a)
            ok, r = call(x.verify_equality, y)
            if ok and r: c.add('sizes', core.cobj(x), [('verify_equality', 'prop', core.cobj(y))], gens.circ_desc(x) + ' ;; ' + gens.circ_desc(y))

GS = {1: ['h0', 's0'], 2: ['h0', 's0', 'h1', 's1', 'cz', 'sw']}
def small(c, q=1, depth=3):
    """all short Clifford circuits"""
    rng = c.rng; mk = {'h': G.HAD, 's': G.S}
    def circ(w):
        d = Circuit(q)
        for x in w: d.add_gate(G.CZ(0, 1) if x == 'cz' else G.SWAP(0, 1) if x == 'sw' else mk[x[0]](int(x[1])))
        return d
    ws = [w for k in range(depth + 1) for w in itertools.product(GS[q], repeat=k)]
    for i in range(c.shard, len(ws), c.nshards):
        if not c.more(): break
        for w in rng.sample(ws, min(3, len(ws))): pair(c, rng, circ(ws[i]), circ(w), True, 'enumerated')
        pair(c, rng, circ(ws[i]), circ(()), True, 'enumerated')

def main(chk):
    q = chk.tier == 'quick'
    t = chk.gen('checks.c20', [('sweep', dict(n=35 if q else 900)), ('small', dict(q=1, depth=5 if q else 8)), ('small', dict(q=2, depth=3 if q else 4))], 9 if q else 250)
    chk.validate(t)
    return chk.finish('a case is non-trivial when it is not identical to another')
