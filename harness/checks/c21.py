"""C21: phase teleportation keeps structure and map."""
import core, gens, json
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx.circuit import Circuit

def obj(g):
    return {'k': 'graph', 'g': core.graph_rec(g), 'x': [json.dumps([str(g.row(v)), str(g.qubit(v))] + [[k, str(g.vdata(v, k))] for k in sorted(g.vdata_keys(v)) if k != 'label']) for v in g.vertices()]}

def signs(rng):
    """few qubits, phases of one family with Pauli spiders between them: long chains of fusions with signs"""
    q = rng.randint(1, 3); c = zx.Circuit(q); d = rng.choice([4, 6, 8, 12, 12])
    for _ in range(rng.randint(5, 35)):
        a = rng.randrange(q); k = rng.choice('tttxxcczhs')
        if q == 1 and k in 'cz': k = 't'
        if k in 'cz': c.add_gate('CNOT' if k == 'c' else 'CZ', a, (a + rng.randrange(1, q)) % q)
        elif k == 't': c.add_gate('ZPhase', a, phase=F(rng.choice([1, 1, 2, -1, d // 2 + 1, d // 2 - 1]), d))
        elif k == 'x': c.add_gate('NOT', a)
        elif k == 'h': c.add_gate('HAD', a)
        else: c.add_gate('XPhase', a, phase=F(rng.choice([1, 2, 3]), 2))
    return c

def unscaled(g):
    """for comparisons up to a factor: the scalar does not matter, unless it is zero"""
    if not g.scalar.is_zero: g = g.copy(); g.scalar = zx.graph.scalar.Scalar()
    return core.gobj(g)

def diagram(rng):
    k = rng.choice(['circ', 'circ', 'circ', 'gl', 'zx', 'gadget', 'twin', 'star', 'state', 'signs', 'signs'])
    phk = rng.choice(['T', 'T', 'nonc', 'any', 'cliff'])
    c = None
    if k in ('circ', 'state'):
        c = gens.rand_circuit(rng, gens.size(rng, 1, 5, 7), gens.size(rng, 1, 45, 110), rng.choice(['T', 'cnotT', 'zx', 'opt', 'basic', 'opt', 'full']), phk); g = c.to_graph()
        if k == 'state': g.apply_state(''.join(rng.choice('01+-') for _ in range(c.qubits))); c = None
    elif k == 'signs': c = signs(rng); g = c.to_graph()
    elif k == 'gadget': g = gens.gadget_diagram(rng, rng.randint(1, 4), rng.randint(1, 5), phk)
    elif k == 'twin': g = gens.twin_diagram(rng, 'nonc')
    elif k == 'star': g = gens.star_diagram(rng, phk)
    else: g = gens.rand_diagram(rng, gens.size(rng, 0, 12, 18), rng.randint(0, 3), rng.randint(0, 3), phk, gl=k == 'gl')
    if rng.random() < .2 and c is None:     # gaps in the names
        x = g.add_vertex(1); g.add_vertex(1, phase=F(1, 4)); g.remove_vertex(x)
    return g, c

def circuitlike(c):
    """no gate whose diagram connects qubits by more than a controlled gate does"""
    return all(type(x).__name__ in ('ZPhase', 'Z', 'S', 'T', 'XPhase', 'NOT', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CX') for x in c.gates)

def sweep(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        g, circ = diagram(rng); desc = gens.circ_desc(circ) if circ else gens.dump(g)
        try:
            st = obj(g); ok, r = call(zx.simplify.teleport_reduce, g)
            if not ok: c.add('teleport_reduce', st, [('teleport_reduce', 'prop', bad(r))], desc); continue
            o = export_result(obj, r); ev = [('teleport_reduce', 'shape', o), ('teleport_reduce', 'prop', o), ('argument', 'same', export(obj, g))]
            k = rng.randrange(6); c.note('teleport')
            def then(nm, f, rel='prop'):
                ok, x = call(f); c.note(nm)
                ev.append((nm, rel, x() if ok and callable(x) else x if ok else bad(x)))
            if k == 0: then('full_reduce of the argument', lambda: (zx.full_reduce(g), export_result(unscaled, g))[1])
            elif k == 1: then('full_reduce of the result', lambda: (zx.full_reduce(r), export_result(unscaled, r))[1])
            elif k == 2: then('teleport_reduce again', lambda: export_result(obj, zx.simplify.teleport_reduce(r)), rng.choice(['prop', 'shape']))
            elif k == 3: then('copy and reduce', lambda: (lambda h: (zx.full_reduce(h), export_result(unscaled, h))[1])(r.copy()))
            elif circ is not None and circuitlike(circ) and k == 4: then('circuit', lambda: export_result(core.cobj, Circuit.from_graph(r)))
            elif circ is not None and circuitlike(circ) and not any(isinstance(x, zx.gates.XPhase) and not isinstance(x, zx.gates.NOT) for x in circ.to_basic_gates().gates) and k == 5: then('basic_optimization', lambda: export_result(core.cobj, zx.optimize.basic_optimization(Circuit.from_graph(r).to_basic_gates())))
            c.add('teleport_reduce', st, ev, desc)
        except NotRepresentable: c.skipped += 1

def chains(c, n):
    """long circuits on few qubits with phases finer than pi/4: a place keeps receiving further phases, with signs, after it was moved"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 3]); a = Circuit(q); ph = rng.choice([[F(1, 8)] * 3 + [F(1, 2)], [F(1, 8), F(1, 3), F(1, 2), F(1), F(3, 8)], [F(1, 8), F(1, 4), F(1, 2), F(3, 8)]])
        h, no = rng.choice([.03, .06, .06, .1]), rng.choice([.1, .2, .25]); cn = rng.choice([.67, .67, .4])
        for _ in range(rng.choice([60, 90, 110])):
            k = rng.random()
            if k < .3: a.add_gate('CNOT' if rng.random() < cn else 'CZ', *rng.sample(range(q), 2))
            elif k < .3 + no: a.add_gate('NOT', rng.randrange(q))
            elif k < .3 + no + h: a.add_gate('HAD', rng.randrange(q))
            else: a.add_gate('ZPhase', rng.randrange(q), phase=rng.choice(ph))
        try:
            g = a.to_graph(); st = core.gobj(g); ok, r = call(zx.simplify.teleport_reduce, g); c.note('chains')
            c.add('teleport_reduce', st, [('teleport_reduce', 'prop', export_result(core.gobj, r) if ok else bad(r))], gens.circ_desc(a))
        except NotRepresentable: c.skipped += 1

def main(chk):
    q = chk.tier == 'quick'
    t = chk.gen('checks.c21', [('sweep', dict(n=90 if q else 1500)), ('chains', dict(n=220 if q else 6000))], 20 if q else 400)
    chk.validate(t)
    return chk.finish('a case is non-trivial when it is not identical to another')
