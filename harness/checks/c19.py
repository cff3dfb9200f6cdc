"""C19: stabilizer decompositions and classical simulation against modules Meaning and SimTrace."""
import core, gens, random, math
from fractions import Fraction as F
import numpy as np
from framework import *
import pyzx as zx
from pyzx import simulate, simplify
from pyzx.simulate import SumGraph
from pyzx.circuit import Circuit

R2 = math.sqrt(2); BS = np.arange(-60000, 60001); BR = BS * R2
def real_in(x, m):
    y = x * (1 << m); a = np.round(y - BR); r = np.abs(y - BR - a); i = int(np.lexsort((np.abs(BS), np.round(r, 9)))[0])
    return (int(a[i]), int(BS[i])) if r[i] < 2e-8 * max(1, abs(y) / 1e3) else None
def exact(z):
    """complex number -> element of Z[w,1/2]; coefficients may be large"""
    try: return core.ring_of(z)
    except NotRepresentable: pass
    z = complex(z)
    for m in range(7):
        r = real_in(z.real, m); i = r and real_in(z.imag, m)
        if r and i: return [r[0], r[1] + i[1], i[0], i[1] - r[1], m]
    raise NotRepresentable('complex number %r' % z)
def rec(g):
    ff = g.scalar.floatfactor; s = g.scalar.copy(); s.floatfactor = 1.0; old = g.scalar
    g.scalar = s
    try: r = core.graph_rec(g)
    finally: g.scalar = old
    r['sc']['ff'] = exact(ff); return r
def robj(g): return {'k': 'graph', 'g': rec(g)}
def sobj(gs, nin, nout):
    if not gs: return {'k': 'mat', 'nin': nin, 'nout': nout, 'm': [[[0, 0, 0, 0, 0]] * (1 << nin) for _ in range(1 << nout)]}
    return {'k': 'sum', 'gs': [rec(g) for g in gs]}
def matobj(m, nin, nout): return {'k': 'mat', 'nin': nin, 'nout': nout, 'm': [[exact(x) for x in r] for r in m]}

def diagram(rng, scalar=False, big=False):
    k = rng.choice(['gl', 'gadget', 'circuit', 'star', 'gl'])
    b = 0 if scalar else 2
    if k == 'gl': g = gens.rand_diagram(rng, rng.randint(1, 9), rng.randint(0, b), rng.randint(0, b), 'T', gl=True, mix=rng.random() < .4)
    elif k == 'gadget': g = gens.gadget_diagram(rng, rng.randint(1, 3), rng.randint(1, 4), 'T')
    elif k == 'star': g = gens.star_diagram(rng, 'T')
    else:
        c = gens.rand_circuit(rng, rng.randint(1, 4), rng.randint(4, 40), 'T'); g = c.to_graph(); n = c.qubits
        if scalar or rng.random() < .5: g.apply_state(''.join(rng.choice('01+-') for _ in range(n)))
        if scalar: g.apply_effect(''.join(rng.choice('01+-') for _ in range(n)))
        zx.simplify.spider_simp(g, quiet=True); zx.simplify.to_gh(g)
    if scalar and (g.num_inputs() or g.num_outputs()):
        g.apply_state(''.join(rng.choice('01+-') for _ in range(g.num_inputs()))) if g.num_inputs() else None
        g.apply_effect(''.join(rng.choice('01+-') for _ in range(g.num_outputs()))) if g.num_outputs() else None
    zx.simplify.to_graph_like(g) if rng.random() < .5 else None
    if rng.random() < .5 or scalar and rng.random() < .7: zx.full_reduce(g)
    elif not all(g.edge_type(e) == 2 or 0 in map(g.type, g.edge_st(e)) for e in g.edges()) or any(g.type(v) == 2 for v in g.vertices()): zx.simplify.to_graph_like(g)
    return g

FUNCS6 = ['replace_B60', 'replace_B66', 'replace_E6', 'replace_O6', 'replace_K6', 'replace_phi1', 'replace_phi2']
def exact_traces(c, n=30):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = diagram(rng, scalar=rng.random() < .3); t = zx.simplify.tcount(g); nin, nout = g.num_inputs(), g.num_outputs()
        if any(F(g.phase(v)).denominator > 4 for v in g.vertices()): continue
        try:
            st = robj(g); ev = []; ev2 = []; desc = gens.dump(g)
            if t > 0:
                pick = rng.choice([False, False, True, rng.randint(2, 10**6)])
                ok, s = call(simulate.replace_magic_states, g.copy(), pick)
                o = export_result(lambda: sobj(s.graphs, nin, nout)) if ok else core.bad(s); ev.append(('replace', 'eq', o))
                if ok and o['k'] == 'sum': ev2.append({'a': 'step', 'exc': '', 't': t, 'terms': o['gs']})
                if ok:
                    for nm in rng.sample(['full_reduce', 'reduce_scalar'], 1):
                        s2 = SumGraph([h.copy() for h in s.graphs]); ok2, r = call(getattr(s2, nm)); ev.append((nm, 'eq', export_result(lambda: sobj(s2.graphs, nin, nout)) if ok2 else core.bad(r)))
                    if nin + nout <= 4 and rng.random() < .5:
                        ok2, m = call(s.to_matrix); ev.append(('to_matrix', 'eq', export_result(lambda: matobj(m.tolist(), nin, nout)) if ok2 else core.bad(m)))
                        ok2, m = call(s.to_tensor); ev.append(('to_tensor', 'eq', export_result(lambda: matobj(np.transpose(m, list(range(nin + nout))).reshape(2**nout, 2**nin).tolist(), nin, nout)) if ok2 else core.bad(m)))
            if t <= 8 or rng.random() < .2:
                h = g.copy(); ok, l = call(simulate.find_stabilizer_decomp, h); o = export_result(lambda: sobj(l, nin, nout)) if ok else core.bad(l); ev.append(('find_stabilizer_decomp', 'eq', o))
                ok2, b = call(simulate.max_terms_needed, g)
                if o['k'] != 'bad': ev2.append({'a': 'terms', 'exc': '' if ok2 else b, 't': t, 'bound': int(b) if ok2 else 0, 'terms': o.get('gs', [])})
            for k in ev: c.note(k[0])
            c.add('decompose', st, ev, desc)
            if ev2: c.traces.append({'site': 'terms', 'ev': ev2, 'desc': desc})
        except NotRepresentable: c.skipped += 1
def scalars(c, n=20):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g = diagram(rng, scalar=True)
        if g.num_inputs() + g.num_outputs(): continue
        try:
            zx.full_reduce(g)
            st = robj(g); ok, v = call(simulate.calculate_path_sum, g.copy())
            c.note('path_sum'); c.add('path_sum', st, [('calculate_path_sum', 'eq', export_result(lambda: matobj([[v]], 0, 0)) if ok else core.bad(v))], gens.dump(g))
        except NotRepresentable: c.skipped += 1
def select(c, n=15):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 4); cc = gens.rand_circuit(rng, q, rng.randint(2, 20), 'T'); g = cc.to_graph(); g.apply_state(''.join(rng.choice('01+-') for _ in range(q))); zx.full_reduce(g)
        sel = {k: rng.choice('01+-') for k in rng.sample(range(q), rng.randint(1, q))}
        try:
            gs = [g]
            if zx.simplify.tcount(g) and rng.random() < .6: gs = simulate.replace_magic_states(g).graphs
            s = SumGraph([x.copy() for x in gs]); before = sobj(gs, 0, q)
            ok, r = call(s.post_select, dict(sel))
            if not ok: c.add('post_select', before, [('post_select', 'eq', core.bad(r))]); continue
            after = export_result(lambda: sobj(s.graphs, 0, q)); c.add('post_select', before, [('argument kept', 'eq', after)], str(sel))
            if len(r.graphs) != len(gs): c.add('post_select', before, [('post_select', 'eq', core.bad('number of terms'))], str(sel)); continue
            for x, y in zip(gs, r.graphs):
                p, ix = core.graph_plain(Plain(x)); p['sc']['ff'] = exact(x.scalar.floatfactor); p = core.finish(p)
                ks = sorted(sel); o = core.plug({'k': 'graph', 'g': p}, [ix[x.outputs()[k]] for k in ks], [sel[k] for k in ks])
                c.note('post_select'); c.add('post_select', o, [('post_select', 'eq', export_result(robj, y))], '%s %s' % (sel, gens.dump(x)))
        except NotRepresentable: c.skipped += 1
class Plain:
    """the diagram with its float factor left out"""
    def __init__(self, g):
        self.g = g; self.scalar = g.scalar.copy(); self.scalar.floatfactor = 1.0
    def __getattr__(self, k): return getattr(self.g, k)

def event(a, f, **k):
    ok, r = call(f); e = {'a': a, 'exc': '' if ok else r, **k}
    if ok: e.update(r)
    return e
def states(c, n=6):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([0, 1, 1, 2, 2]); cc = gens.rand_circuit(rng, max(q, 1), rng.randint(2, 14), 'T'); g = cc.to_graph(); g.apply_state('0' * cc.qubits)
        if q == 0: g.apply_effect('0'); 
        k = rng.randint(-2, 2); g.scalar.add_power(k); zx.full_reduce(g)
        try:
            gs = simulate.find_stabilizer_decomp(g.copy()); r = [rec(x) for x in gs]; s = SumGraph(gs); random.seed(rng.randrange(2**32)); m = {0: 1, 1: 80, 2: 12}[q]
            ev = [event('inner', lambda: dict(vals=[exact(s.inner_product_with_random_state()) for _ in range(m)]), gs=r, all=q < 2)]
            if q: ev.append(event('norm', lambda: dict(est=int(1000 * s.estimate_norm(.1) * 2.0**-k)), sq=1, tol=300)); ev.append(event('norm', lambda: dict(est=int(1000 * s.estimate_norm(.3) * 2.0**-k)), sq=1, tol=900))
            for e in ev: c.note(e['a'])
            c.traces.append({'site': 'state', 'ev': ev, 'desc': gens.circ_desc(cc)})
        except NotRepresentable: c.skipped += 1
def samples(c, n=4):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 4); bits = [rng.randint(0, 1) for _ in range(q)]; extra = rng.randint(0, 1); cc = Circuit(q + extra); gates = []
        for _ in range(rng.randint(1, 10)):
            k = rng.choice([x for x in ('x', 'cx', 'cx', 'tof', 'sw', 'z', 's', 't', 'cz') if q >= {'cx': 2, 'sw': 2, 'cz': 2, 'tof': 3}.get(x, 1)])
            qs = rng.sample(range(q), {'cx': 2, 'sw': 2, 'cz': 2, 'tof': 3}.get(k, 1)); gates.append([k] + qs)
            cc.add_gate({'x': 'NOT', 'cx': 'CNOT', 'tof': 'TOF', 'sw': 'SWAP', 'z': 'Z', 's': 'S', 't': 'T', 'cz': 'CZ'}[k], *qs)
        out = list(bits)
        sel = {}
        n2 = cc.qubits; g = cc.to_graph(); g.apply_state(''.join(map(str, bits)) + '+' * (n2 - q))
        for k in range(q, n2): sel[k] = '+'
        for g2 in gates:
            if g2[0] == 'x': out[g2[1]] ^= 1
            elif g2[0] == 'cx': out[g2[2]] ^= out[g2[1]]
            elif g2[0] == 'tof': out[g2[3]] ^= out[g2[1]] & out[g2[2]]
            elif g2[0] == 'sw': out[g2[1]], out[g2[2]] = out[g2[2]], out[g2[1]]
        rest = list(range(q)); rng.shuffle(rest); cut = rng.randint(1, q); ask = rest[:cut]
        for k in rest[cut:]:
            if rng.random() < .5: sel[k] = str(out[k])
        amount = rng.randint(1, 3); random.seed(rng.randrange(2**32))
        def f():
            h = g.copy(); zx.full_reduce(h); s = SumGraph(simulate.find_stabilizer_decomp(h))
            return dict(samples=[[[int(x), int(y)] for x, y in w] for w in s.sample(ask, dict(sel) if sel else None, amount=amount, epsilon=.5)])
        c.note('sample'); c.traces.append({'site': 'sample', 'ev': [event('sample', f, bits=bits, gates=gates, qubits=ask, amount=amount)], 'desc': '%s %s %s %s' % (bits, gates, ask, sel)})

def main(chk):
    q = chk.tier == 'quick'
    t = chk.gen('checks.c19', [('exact_traces', dict(n=30 if q else 500)), ('scalars', dict(n=15 if q else 300)), ('select', dict(n=10 if q else 200)), ('states', dict(n=4 if q else 40)), ('samples', dict(n=3 if q else 40))], 10 if q else 200)
    a = [x for x in t if 'start' in x]; b = [x for x in t if 'start' not in x]
    chk.validate(a); chk.validate_with('SimTrace.tla', 'SimTrace.cfg', b, shards=8)
    return chk.finish('a case is non-trivial when it is not identical to another')
