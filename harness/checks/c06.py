"""C06: circuit optimizers keep the unitary, the qubits, and do not add non-Clifford gates."""
from fractions import Fraction as F
import core, gens
from framework import *
import pyzx as zx
from pyzx import optimize as O
from pyzx.circuit import gates as G, Circuit

def struct_circuit(rng, q, d):
    """circuits in which cancellations across commuting gates happen: runs of the same pair, Hadamard sandwiches, CNOT/CZ ladders"""
    c = Circuit(q)
    def two():
        a, b = rng.sample(range(q), 2); return a, b
    while len(c.gates) < d:
        r = rng.random(); t = rng.randrange(q)
        if q > 1 and r < .2:
            a, b = two(); c.add_gate(G.CNOT(a, b)); c.add_gate(rng.choice([G.CNOT(b, a), G.CNOT(a, b), G.CZ(a, b), G.CNOT(b, a)]))
            if rng.random() < .4: c.add_gate(G.CNOT(a, b))
        elif r < .35: c.add_gate(G.HAD(t)); c.add_gate(G.ZPhase(t, gens.angle(rng, rng.choice(['cliff', 'T'])))); c.add_gate(G.HAD(t))
        elif r < .45: c.add_gate(G.NOT(t))
        elif r < .65: c.add_gate(rng.choice([G.S(t), G.S(t, adjoint=True), G.T(t), G.T(t, adjoint=True), G.Z(t), G.ZPhase(t, gens.angle(rng, 'T'))]))
        elif r < .75: c.add_gate(G.HAD(t))
        elif q > 1:
            a, b = two()
            g = rng.choice([G.CNOT, G.CNOT, G.CZ])(a, b); c.add_gate(g)
            if rng.random() < .4:
                x = rng.choice([a, b]); c.add_gate(rng.choice([G.NOT(x), G.T(x), G.Z(x), G.HAD(x)]))
                c.add_gate(g.copy())
    return c

def no_x(circ):
    """the optimizers are documented for ZPhase, HAD, CNOT, CZ (and NOT)"""
    c = Circuit(circ.qubits)
    for g in circ.gates:
        if isinstance(g, G.XPhase) and not isinstance(g, G.NOT): c.gates += [G.HAD(g.target), G.ZPhase(g.target, g.phase), G.HAD(g.target)]
        else: c.gates.append(g)
    return c

def make(rng, q, d):
    circ, phk = make0(rng, q, d)
    return no_x(circ), phk

def make0(rng, q, d):
    r = rng.random()
    if r < .45: return struct_circuit(rng, q, d), 'T'
    if r < .6: return gens.rand_circuit(rng, q, d, 'T', 'T'), 'T'
    if r < .7: return gens.rand_circuit(rng, q, d, 'cliff', 'cliff').to_basic_gates(), 'T'
    if r < .8: return gens.rand_circuit(rng, q, d, 'cnotT', 'T').to_basic_gates(), 'T'
    if r < .9: return gens.rand_circuit(rng, q, max(1, d // 3), 'opt', 'T').to_basic_gates(), 'T'
    return gens.rand_circuit(rng, q, d, 'zx', 'any').to_basic_gates(), 'any'

def run(c, site, circ, phk, ops, start=None):
    fine = 'phase' if phk == 'T' else 'prop'
    try:
        st = core.cobj(start or circ); ev = []
        for name, f, conn in ops:
            inp = circ.copy()
            ok, r = call(f, inp)
            c.note(name)
            if not ok: ev.append((name, fine, bad(r))); continue
            o = export_result(core.cobj, r)
            ev.append((name, fine, o))
            if o['k'] == 'circ':
                ev.append((name + ' (T gates)', 'tcount', o))
                if conn: ev.append((name + ' (connectivity)', 'conn', o))
            ev.append((name + ' (argument untouched)', fine, export_result(core.cobj, inp)))
        c.add(site, st, ev, gens.circ_desc(circ))
    except NotRepresentable: c.skipped += 1

def sep(c):
    r, corr = O.Optimizer(c.copy()).parse_circuit(separate_correction=True, max_iterations=1 + len(c.gates) % 4)
    r = r.copy()
    for g in corr: r.gates.extend(g.to_basic_gates())
    return r

def basic(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 2, 3, 3, 4, 5]); circ, phk = make(rng, q, rng.randint(0, 30) if rng.random() < .6 else rng.randint(0, 8))
        run(c, 'basic_optimization', circ, phk, [('basic_optimization', lambda x: O.basic_optimization(x), False),
              ('basic_optimization(do_swaps=False)', lambda x: O.basic_optimization(x, do_swaps=False), True),
              ('Optimizer.parse_circuit(separate_correction)', sep, False), ('Optimizer.parse_circuit(max_iterations)', lambda x: O.Optimizer(x).parse_circuit(max_iterations=1 + len(x.gates) % 3, do_swaps=len(x.gates) % 2 == 0), False)])

def tiny(c, n=400):
    """very short circuits, where single commutation rules show"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 2, 3]); circ, phk = make(rng, q, rng.randint(2, 7))
        run(c, 'basic_optimization', circ, phk, [('basic_optimization', lambda x: O.basic_optimization(x), False),
              ('basic_optimization(do_swaps=False)', lambda x: O.basic_optimization(x, do_swaps=False), True)])

def phaseblock(c, n=20):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 3, 3, 4]); circ, phk = make(rng, q, rng.randint(0, 40))
        if phk != 'T': continue
        pre = rng.random() < .6
        if not pre: circ.gates = [g for g in circ.gates if not isinstance(g, G.NOT)]
        run(c, 'phase_block_optimize', circ, phk, [('phase_block_optimize(pre_optimize=%s)' % pre, lambda x: O.phase_block_optimize(x, pre_optimize=pre), False)])

def full(c, n=15):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 3, 3, 4])
        circ = gens.rand_circuit(rng, q, rng.randint(0, 25), rng.choice(['T', 'cnotT', 'opt']), 'T') if rng.random() < .6 else struct_circuit(rng, q, rng.randint(3, 35))
        circ = no_x(circ)
        run(c, 'full_optimize', circ, 'T', [('full_optimize', lambda x: O.full_optimize(x), False)], start=circ.to_basic_gates())

def wide(c, n=10):
    """more qubits, and long circuits on few of them"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        if rng.random() < .5: q, d = rng.randint(5, 8), rng.randint(20, 70)
        else: q, d = rng.randint(2, 4), rng.randint(60, 160)
        circ, phk = make(rng, q, d)
        ops = [('basic_optimization', lambda x: O.basic_optimization(x), False), ('basic_optimization(do_swaps=False)', lambda x: O.basic_optimization(x, do_swaps=False), True)]
        if phk == 'T' and rng.random() < .4: ops.append(('phase_block_optimize', lambda x: O.phase_block_optimize(x), False))
        run(c, 'basic_optimization', circ, phk, ops)

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 6 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c06', [('basic', dict(n=80 * k)), ('tiny', dict(n=150 * k)), ('phaseblock', dict(n=25 * k)), ('full', dict(n=20 * k)), ('wide', dict(n=12 * k))], b))
    return chk.finish('seeded circuits over the accepted gate set; non-trivial when recorded objects are distinct')
