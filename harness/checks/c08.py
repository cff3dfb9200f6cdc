"""C08: circuit algebra is faithful."""
from fractions import Fraction as F
import core, gens, copy
from framework import *
import pyzx as zx
from pyzx.circuit import gates as G, Circuit
from checks.c07 import KINDS, make, relof

def desc(*cs): return ' || '.join(gens.circ_desc(c) for c in cs)

def rc(rng, q, d=None, pk='any'):
    kind = rng.choice(['full', 'full', 'full', 'opt', 'T', 'basic'])
    if q < 1: return Circuit(q)
    c = gens.rand_circuit(rng, q, d if d is not None else rng.randint(0, 8), kind, pk)
    if rng.random() < .3 and q > 1:
        a, b = rng.sample(range(q), 2)
        c.gates.insert(rng.randint(0, len(c.gates)), G.FSim(a, b, F(rng.choice([1, -1]), 2), gens.angle(rng, pk)))
    return c

def adjoint(c, n=80):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 3, 3, 4]); pk = rng.choice(['any', 'T', 'T'])
        if i % 2:
            kind = KINDS[(i // 2 + c.shard * 4) % len(KINDS)]; q = 3
            a = Circuit(q); a.add_gate(make(kind, rng.sample(range(q), rng.randint(1, q) if kind == 'ParityPhase' else q), lambda: gens.angle(rng, pk)))
        else: a = rc(rng, q, pk=pk)
        try:
            A = core.cobj(a); c.note('adjoint')
            ok, r = call(a.adjoint)
            ev = [('adjoint', 'eq', export_result(core.cobj, r) if ok else bad(r))]
            if ok:
                # the diagram of the adjoint, so that what to_graph and printing use is covered as well
                rel = relof(a, pk != 'any')
                ok2, h = call(lambda: r.to_graph()); ev.append(('adjoint().to_graph()', relof(r, pk != 'any') if rel == 'eq' else rel, export_result(core.gobj, h) if ok2 else bad(h)))
                ok3, b = call(lambda: r.adjoint())
            c.add('adjoint', core.adj(A), ev, desc(a))
            ev = [('argument untouched', 'eq', export_result(core.cobj, a))]
            if ok:
                ev.append(('adjoint of the adjoint', 'eq', export_result(core.cobj, b) if ok3 else bad(b)))
            c.add('adjoint', A, ev, desc(a))
            if ok:
                e = Circuit(q)
                ok, s = call(lambda: a + r)
                c.add('adjoint', core.cobj(e), [('circuit + adjoint is the identity', 'eq', export_result(core.cobj, s) if ok else bad(s))], desc(a))
        except NotRepresentable: c.skipped += 1

def compose(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 3, 3, 4]); pk = rng.choice(['any', 'T'])
        a, b = rc(rng, q, pk=pk), rc(rng, q, pk=pk)
        try:
            A, B = core.cobj(a), core.cobj(b); ev = []
            def evt(nm, f):
                ok, r = call(f); ev.append((nm, 'eq', export_result(core.cobj, r) if ok else bad(r))); c.note(nm)
            evt('a + b', lambda: a + b)
            def iadd():
                x = a.copy(); x += b; return x
            evt('a += b', iadd)
            def addc():
                x = a.copy(); x.add_circuit(b); return x
            evt('add_circuit', addc)
            def addg():
                x = Circuit(q)
                for g in a.gates: x.add_gate(g)
                for g in b.gates: x += g
                return x
            evt('add_gate / += gate', addg)
            def prep():
                x = b.copy()
                for g in reversed(a.gates): x.prepend_gate(g)
                return x
            evt('prepend_gate', prep)
            def it():
                x = Circuit(q)
                for g in list(a) + list(b): x.gates.append(g)
                if len(a) + len(b) != len(x): raise AssertionError('len')
                return x
            evt('iteration', it)
            c.add('compose', core.then(A, B), ev, desc(a, b))
            c.add('compose', A, [('left operand untouched', 'eq', export_result(core.cobj, a))], desc(a, b))
            c.add('compose', B, [('right operand untouched', 'eq', export_result(core.cobj, b))], desc(a, b))
        except NotRepresentable: c.skipped += 1

def masked(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 3, 4, 5]); k = rng.randint(1, min(q, 4)); pk = rng.choice(['any', 'T'])
        a, b = rc(rng, q, rng.randint(0, 4), pk), rc(rng, k, rng.randint(1, 6), pk)
        m = rng.sample(range(q), k)
        try:
            A, B = core.cobj(a), core.cobj(b)
            def f():
                x = a.copy(); x.add_circuit(b, mask=m); return x
            ok, r = call(f); c.note('add_circuit(mask)')
            ev = [('add_circuit(mask)', 'eq', export_result(core.cobj, r) if ok else bad(r))]
            if ok:
                rel = relof(r, pk == 'T'); ok2, h = call(lambda: r.to_graph())
                ev.append(('add_circuit(mask), as a diagram', rel, export_result(core.gobj, h) if ok2 else bad(h)))
            def g():
                x = a.copy()
                for gt in b.gates: x.add_gate(gt.reposition(m))
                return x
            ok, r = call(g); ev.append(('reposition', 'eq', export_result(core.cobj, r) if ok else bad(r)))
            # gates written out in basic gates go where the gate goes
            def h():
                x = a.copy()
                for gt in b.gates:
                    for y in gt.reposition(m).to_basic_gates(): x.add_gate(y)
                return x
            ok, r = call(h); ev.append(('reposition, basic gates', relof(b, pk == 'T'), export_result(core.cobj, r) if ok else bad(r)))
            c.add('masked', core.then(A, B, m), ev, desc(a, b) + ' mask=%s' % m)
            c.add('masked', B, [('repositioned circuit untouched', 'eq', export_result(core.cobj, b))], desc(b))
        except NotRepresentable: c.skipped += 1

def tensor(c, n=50):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q, k = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 2]); pk = rng.choice(['any', 'T'])
        a, b = rc(rng, q, pk=pk), rc(rng, k, pk=pk)
        try:
            A, B = core.cobj(a), core.cobj(b); ev = []
            for nm, f in [('a @ b', lambda: a @ b), ('tensor', lambda: a.tensor(b))]:
                ok, r = call(f); ev.append((nm, 'eq', export_result(core.cobj, r) if ok else bad(r))); c.note(nm)
            c.add('tensor', core.par(A, B), ev, desc(a, b))
            c.add('tensor', A, [('left operand untouched', 'eq', export_result(core.cobj, a))], desc(a, b))
            c.add('tensor', B, [('right operand untouched', 'eq', export_result(core.cobj, b))], desc(a, b))
            # a gate as right operand occupies the qubits up to its last one
            gt = gens.rand_gate(rng, rng.randint(1, 3), 'full', pk)
            tops = [gt._max_target()]; qs = core.gate_rec(gt)['q']
            z = Circuit(max(qs)); z.gates.append(gt)
            ok, r = call(lambda: a @ gt)
            c.add('tensor', core.par(A, core.cobj(z)), [('circuit @ gate', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(a, z))
            g2 = gens.rand_gate(rng, rng.randint(1, 3), 'full', pk)
            w = Circuit(max(core.gate_rec(g2)['q'])); w.gates.append(g2)
            ok, r = call(lambda: gt @ g2)
            c.add('tensor', core.par(core.cobj(z), core.cobj(w)), [('gate @ gate', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(z, w))
            # gate + gate: a circuit on as many qubits as needed
            n_ = max(z.qubits, w.qubits); zw = Circuit(n_); zw.gates = [gt, g2]
            ok, r = call(lambda: gt + g2)
            c.add('compose', core.cobj(zw), [('gate + gate', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(z, w))
        except NotRepresentable: c.skipped += 1

def copies(c, n=50):
    """copies are equal to and independent of the original; splitting phases; single-qubit gate series; row and column additions"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.choice([2, 3, 4]); pk = rng.choice(['any', 'T'])
        a = rc(rng, q, pk=pk)
        try:
            A = core.cobj(a); ev = []
            ok, b = call(a.copy); c.note('copy')
            ev.append(('copy', 'eq', export_result(core.cobj, b) if ok else bad(b)))
            if ok:
                for gt in b.gates:
                    if hasattr(gt, 'phase'): gt.phase = gt.phase + F(1, 3)
                    if hasattr(gt, 'target'): gt.target = (gt.target + 1) % q
                b.gates.append(G.HAD(0)); b.qubits += 1
                ev.append(('original after changing the copy', 'eq', export_result(core.cobj, a)))
            ok, r = call(a.split_phase_gates)
            ev.append(('split_phase_gates', 'eq', export_result(core.cobj, r) if ok else bad(r)))
            ev.append(('original after split_phase_gates', 'eq', export_result(core.cobj, a)))
            ok, r = call(a.to_basic_gates)
            ev.append(('original after to_basic_gates', 'eq', export_result(core.cobj, a)))
            c.add('copy', A, ev, desc(a))
            names = rng.choices(['H', 'S', 'T', 'Z', 'NOT', 'HAD', 'Y', 'SX'], k=rng.randint(1, 5)); t = rng.randrange(q)
            b = Circuit(q)
            for nm in names: b.gates.append({'H': G.HAD, 'HAD': G.HAD, 'S': G.S, 'T': G.T, 'Z': G.Z, 'NOT': G.NOT, 'Y': G.Y, 'SX': G.SX}[nm](t))
            def f():
                x = a.copy(); x.add_gates(' '.join(names), t); return x
            ok, r = call(f); c.note('add_gates')
            c.add('add_gates', core.then(A, core.cobj(b)), [('add_gates', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(a, b))
            x, y = rng.sample(range(q), 2)
            b = Circuit(q); b.gates.append(G.CNOT(x, y))
            def f():
                z = a.copy(); z.row_add(x, y); return z
            ok, r = call(f); c.add('row_add', core.then(A, core.cobj(b)), [('row_add', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(a, b))
            b = Circuit(q); b.gates.append(G.CNOT(y, x))
            def f():
                z = a.copy(); z.col_add(x, y); return z
            ok, r = call(f); c.add('row_add', core.then(core.cobj(b), A), [('col_add', 'eq', export_result(core.cobj, r) if ok else bad(r))], desc(a, b))
        except NotRepresentable: c.skipped += 1

NAMES = {'XPhase': (1, 1), 'NOT': (1, 0), 'SX': (1, 0), 'CSX': (2, 0), 'YPhase': (1, 1), 'Y': (1, 0), 'CY': (2, 0), 'ZPhase': (1, 1), 'CPhase': (2, 1), 'CP': (2, 1), 'Z': (1, 0),
         'S': (1, 0), 'T': (1, 0), 'CNOT': (2, 0), 'CZ': (2, 0), 'XCX': (2, 0), 'SWAP': (2, 0), 'CSWAP': (3, 0), 'CRZ': (2, 1), 'HAD': (1, 0), 'H': (1, 0), 'CHAD': (2, 0), 'TOF': (3, 0),
         'CCZ': (3, 0), 'U2': (1, 2), 'U3': (1, 3), 'U': (1, 3), 'CU3': (2, 3), 'CU': (2, 4), 'CRX': (2, 1), 'CRY': (2, 1), 'RZZ': (2, 1), 'RXX': (2, 1)}
REC = {'XPhase': 'XPhase', 'NOT': ('XPhase', 1), 'SX': ('XPhase', F(1, 2)), 'Y': ('YPhase', 1), 'Z': ('ZPhase', 1), 'S': ('ZPhase', F(1, 2)), 'T': ('ZPhase', F(1, 4)), 'CP': 'CPhase', 'H': 'HAD',
       'TOF': 'TOF', 'U': 'U3'}
def named(c, n=40):
    """gates added by name have the documented meaning (controls first); equality of gates is sound and holds between copies"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = 3
        nm = sorted(NAMES)[(i + c.shard * 5) % len(NAMES)]; k, np_ = NAMES[nm]
        qs = rng.sample(range(q), k); ps = [gens.angle(rng, 'any') for _ in range(np_)]
        r = REC.get(nm, nm); ph = ps
        if isinstance(r, tuple): r, p = r; ph = [F(p)]
        red = (r in ('ZPhase', 'XPhase'))
        start = {'k': 'circ', 'c': {'n': q, 'gates': [{'nm': r, 'q': [x + 1 for x in qs], 'p': [core.phase_idx(p, red) for p in ph]}]}}
        def f():
            x = Circuit(q); x.add_gate(nm, *qs, *ps); return x
        ok, x = call(f); c.note('add_gate by name')
        ev = [('add_gate(%s)' % nm, 'eq', export_result(core.cobj, x) if ok else bad(x))]
        def f():
            x = Circuit(q); x.prepend_gate(nm, *qs, *ps); return x
        ok2, y = call(f); ev.append(('prepend_gate(%s)' % nm, 'eq', export_result(core.cobj, y) if ok2 else bad(y)))
        c.add('named', start, ev, '%s %s %s' % (nm, qs, ps))
        if not ok: continue
        a = x.gates[0]
        cp = a.copy()
        ok, e = call(lambda: (cp == a, a == cp))
        if not ok or e != (True, True): c.add('gate equality', start, [('copy of a gate compares equal', 'eq', bad('a copy compares different: %r' % (e,)))], '%s %s %s' % (nm, qs, ps))
        # a related gate: same kind with other qubits, parameters or flag, or another kind on the same qubits
        kind = rng.choice(KINDS)
        b = make(kind, rng.sample(range(q), 3), lambda: gens.angle(rng, 'any')) if rng.random() < .4 else None
        if b is None:
            qs2 = rng.choice([qs, rng.sample(range(q), k), qs[::-1]]); ps2 = [p if rng.random() < .5 else gens.angle(rng, 'any') for p in ps]
            b = G.gate_types[nm](*qs2, *ps2)
            if nm in ('S', 'T', 'SX') and rng.random() < .5: b = type(b)(*qs2, adjoint=True)
        ok, e = call(lambda: a == b)
        if not ok: c.add('gate equality', start, [('==', 'eq', bad(e))], '%s %s' % (a, b))
        elif e:
            z = Circuit(q); z.gates.append(b)
            try: c.add('gate equality', start, [('gates that compare equal', 'eq', core.cobj(z))], '%s %s %s == %s' % (nm, qs, ps, b)); c.note('equal gates')
            except NotRepresentable: c.skipped += 1

def bits(c, n=30):
    """circuits with measurements and classical bits: the same algebra, with the bits placed like the qubits"""
    from checks.c31 import hcircuit, hdesc
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k = ['tensor', '@', 'mask', 'bit_mask', 'both', '+', 'add_circuit', 'copy', 'to_basic_gates'][i % 9]; c.note('bits: ' + k)
        a = hcircuit(rng, rng.randint(1, 3), rng.randint(0, 2), rng.randint(1, 5)); q, nb = a.qubits, a.bits
        try:
            b = None; A = core.hcobj(a)
            if k in ('copy', 'to_basic_gates'): ok, r = call(getattr(a, k)); parts = [core.hpart(a)]
            elif k in ('tensor', '@'):
                b = hcircuit(rng, rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 4))
                if q + b.qubits + nb + b.bits > 6: continue
                parts = [core.hpart(a), core.hpart(b, [q + j for j in range(b.qubits)], [nb + j for j in range(b.bits)])]; q += b.qubits; nb += b.bits
                ok, r = call(lambda: a.tensor(b) if k == 'tensor' else a @ b)
            else:
                bq = rng.randint(1, q) if k in ('mask', 'both') else q; bb = rng.randint(0, nb) if k in ('bit_mask', 'both') else nb
                b = hcircuit(rng, bq, bb, rng.randint(1, 4)); kw = {}
                qm, bm = list(range(q)), list(range(nb))
                if k in ('mask', 'both'): kw['mask'] = qm = rng.sample(qm, bq)
                if k in ('bit_mask', 'both'): kw['bit_mask'] = bm = rng.sample(bm, bb)
                parts = [core.hpart(a), core.hpart(b, qm, bm)]
                def f():
                    if k == '+': return a + b
                    x = a.copy(); x.add_circuit(b, **kw); return x
                ok, r = call(f)
            desc = '%s; %s; %s' % (k, hdesc(a), hdesc(b) if b is not None else '')
            ev = [(k, 'prop', export_result(core.hcobj, r) if ok else bad(r))]
            if ok and (r.qubits, r.bits) != (q, nb): ev = [(k, 'prop', bad('%s qubits and %s bits' % (r.qubits, r.bits)))]
            c.add('bits', core.hobj(q, nb, *parts), ev, desc)
            c.add('bits', A, [('left operand untouched', 'prop', export_result(core.hcobj, a))], desc)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 6 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c08', [('adjoint', dict(n=80 * k)), ('compose', dict(n=40 * k)), ('masked', dict(n=45 * k)), ('tensor', dict(n=30 * k)), ('copies', dict(n=25 * k)), ('named', dict(n=120 * k)), ('bits', dict(n=36 * k))], b))
    return chk.finish('seeded circuits over the full gate set; non-trivial when recorded objects are distinct')
