"""C09: circuit description languages keep the unitary.

Programs are generated as syntax trees, written out as text with varying layout, and read by the real parsers; the
specification (CircProgram) elaborates the tree.  Printed circuits are read by small independent readers (below) into trees."""
from fractions import Fraction as F
import math, os, re, tempfile
import core, gens
from framework import *
import pyzx as zx
from pyzx.circuit import gates as G, Circuit
from checks.c07 import KINDS, make

# ------------------------------------------------------------ expressions
def fact(op, q): q = F(q); return [op, q.numerator, q.denominator]
def expr(*fs, neg=False): return {'neg': neg, 'f': [list(f) for f in fs]}
def value(e):
    v = F(1)
    for op, a, b in e['f']: v = v * F(a, b) if op == 1 else v / F(a, b)
    return -v if e['neg'] else v

def num(rng, q):
    q = F(q)
    if q.denominator == 1 and rng.random() < .8: return str(q.numerator)
    return repr(float(q))
def rand_expr(rng):
    """(tree, text, whether the text is in the plain subset)"""
    r = rng.random(); sp = rng.choice(['', '', ' '])
    sgn = rng.random() < .3; s = '-' if sgn else ''
    k = rng.choice([1, 2, 3, 5, 7]); d = rng.choice([2, 3, 4, 8, 16, 5])
    if r < .15:
        if rng.random() < .5: k, d = rng.randint(1, 8399), 4200      # an angle that is near no simple fraction
        return expr(fact(1, F(k, d)), neg=sgn), s + repr(math.pi * k / d)
    if r < .3: return expr(fact(-1, d), neg=sgn), s + 'pi' + sp + '/' + sp + str(d)
    if r < .45: return expr(fact(1, k), fact(-1, d), neg=sgn), s + '%d%s*%spi%s/%s%d' % (k, sp, sp, sp, sp, d)
    if r < .52: return expr(neg=sgn), s + 'pi'
    if r < .6: return expr(fact(1, F(k, 8)), neg=sgn), s + '%r%s*%spi' % (k / 8, sp, sp)
    if r < .66: return expr(fact(1, F(k, 3)), neg=sgn), s + '%r*pi' % (k / 3,)
    if r < .7: return expr(fact(1, k), neg=sgn), s + '%d*pi' % k
    if r < .74: return expr(fact(1, 0)), '0'
    if r < .8: return expr(fact(1, k), fact(-1, d), neg=sgn), s + 'pi%s*%s%d/%d' % (sp, sp, k, d)
    if r < .85: return expr(fact(-1, d), fact(1, k), neg=sgn), s + 'pi/%d%s*%s%d' % (d, sp, sp, k)
    if r < .9: return expr(fact(1, F(3, 2)), fact(-1, d), neg=sgn), s + '1.5*pi/%d' % d
    if r < .95: return expr(fact(1, k), fact(1, 3), fact(-1, d), neg=sgn), s + '%d*pi*3/%d' % (k, d)
    return expr(fact(1, F(k, 4)), neg=sgn), s + '%d/4%s*%spi' % (k, sp, sp)

ARITY = {'x': (1, 0), 'y': (1, 0), 'z': (1, 0), 'h': (1, 0), 's': (1, 0), 'sdg': (1, 0), 't': (1, 0), 'tdg': (1, 0), 'sx': (1, 0), 'sxdg': (1, 0), 'id': (1, 0), 'rx': (1, 1), 'ry': (1, 1), 'rz': (1, 1),
         'p': (1, 1), 'u1': (1, 1), 'u2': (1, 2), 'u3': (1, 3), 'u': (1, 3), 'U': (1, 3), 'cx': (2, 0), 'CX': (2, 0), 'cy': (2, 0), 'cz': (2, 0), 'ch': (2, 0), 'csx': (2, 0), 'swap': (2, 0),
         'crx': (2, 1), 'cry': (2, 1), 'crz': (2, 1), 'cp': (2, 1), 'cphase': (2, 1), 'cu1': (2, 1), 'rxx': (2, 1), 'rzz': (2, 1), 'cu3': (2, 3), 'cu': (2, 4), 'ccx': (3, 0), 'ccz': (3, 0), 'cswap': (3, 0)}

def stmt(nm, args, ps=(), d=0, neg=()): return {'nm': nm, 'def': d, 'ps': list(ps), 'args': [list(a) for a in args], 'neg': list(neg)}
def prog(lang, regs, stmts, defs=()): return {'k': 'prog', 'p': {'lang': lang, 'regs': regs, 'defs': list(defs), 'stmts': stmts}}

class W:
    """layout of a text: spaces, line breaks, comments"""
    def __init__(self, rng, plain): self.rng, self.plain = rng, plain
    def sp(self): return ' ' if self.plain or self.rng.random() < .75 else self.rng.choice(['  ', '\t', '\n  '])
    def opt(self): return '' if self.plain or self.rng.random() < .8 else ' '
    def eol(self):
        r = self.rng.random()
        if self.plain or r < .7: return '\n'
        if r < .8: return ' '
        if r < .9: return ' // h q[0]; gate nothing a { }\n'
        return '\n\n'

def qasm_program(rng, plain=False):
    ver = rng.choice([2, 2, 3]); w = W(rng, plain)
    nreg = rng.choice([1, 1, 2, 3])
    sizes = [rng.randint(1, 3) for _ in range(nreg)]
    while sum(sizes) > 5: sizes[rng.randrange(nreg)] = 1
    names = rng.sample(['q', 'r', 'reg1', 'anc_0', 'qq', 'Q', 'a'], nreg)
    out = []
    head = 'OPENQASM %s;\n' % rng.choice(['2.0', '2.0', '2'] if ver == 2 else ['3', '3.0']) + ('include "qelib1.inc";\n' if ver == 2 else 'include "stdgates.inc";\n')
    defs = []; dnames = []; stmts = []
    declared = []
    def gatecall(regs_avail, formals=None):
        """regs_avail: list of (index in regs, size, name) / formals: list of names"""
        tot = [(r, i) for r, size, _ in regs_avail for i in range(size)]
        usedef = defs and rng.random() < .3
        for _ in range(60):
            if usedef:
                k = rng.randrange(len(defs)); n, npar, nm, dn = defs[k]['n'], 0, dnames[k], k + 1
            else:
                nm = rng.choice(list(ARITY)); n, npar = ARITY[nm]; dn = 0
                if nm == 'U' and ver == 2 and rng.random() < .5: continue
            if n <= len(tot): break
        else: return None
        pes = [rand_expr(rng) for _ in range(npar)]
        args = None
        if formals is None and rng.random() < .3:        # broadcasting
            size = rng.choice([s for _, s, _ in regs_avail])
            whole = [r for r in regs_avail if r[1] == size]
            m = rng.randint(1, min(n, len(whole)))
            ws = rng.sample(whole, m); rest = [x for x in tot if x[0] not in [y[0] for y in ws]]
            if len(rest) >= n - m:
                args = [[r, -1] for r, _, _ in ws] + [list(x) for x in rng.sample(rest, n - m)]
                rng.shuffle(args)
        if args is None: args = [list(x) for x in rng.sample(tot, n)]
        nm_of = {r: name for r, _, name in regs_avail}
        at = [(nm_of[r] if (i == -1 or formals is not None) else '%s%s[%d]' % (nm_of[r], w.opt() if not plain else '', i)) for r, i in args]
        t = nm
        if npar: t += w.opt() + '(' + ('%s,%s' % (w.opt(), w.opt())).join(e[1] for e in pes) + ')'
        elif dn and rng.random() < .15: t += '()'
        t += w.sp() + (',' + w.opt()).join(at) + ';'
        return stmt(nm, [[r + 1, i if formals is None else 0] for r, i in args], [e[0] for e in pes], dn), t
    def definition():
        n = rng.randint(1, 3); fn = rng.sample(['a', 'b', 'c', 'q', 'x0', 'ctrl'], n); nm = 'g%d' % len(defs) if rng.random() < .5 else rng.choice(['mygate', 'gate_', 'xgate', 'foo', 'cxx']) + str(len(defs)) * (rng.random() < .5)
        if nm in dnames or nm in ARITY: nm += 'z%d' % len(defs)
        body = []; txt = 'gate' + w.sp() + nm + ('()' if rng.random() < .15 else '') + w.sp() + (',' + w.opt()).join(fn) + w.opt() + '{' + w.opt()
        if rng.random() < .3: txt += '\n'
        for _ in range(rng.randint(0, 4)):
            s = gatecall([(k, 1, f) for k, f in enumerate(fn)], fn)
            if s:
                body.append(s[0]); txt += s[1] + (w.eol() if not plain else ' ')
        if rng.random() < .2: txt += 'barrier %s; ' % ','.join(fn)
        txt += '}' + w.eol()
        defs.append({'n': n, 'body': body}); dnames.append(nm)
        return txt
    text = head; order = []
    for i in range(nreg):
        t = ('qreg' + w.sp() + '%s[%d];' % (names[i], sizes[i])) if ver == 2 or rng.random() < .3 else 'qubit[%d] %s;' % (sizes[i], names[i])
        declared.append((i, sizes[i], names[i])); text += t + w.eol()
        if rng.random() < .5: text += ('creg c%d[%d];' % (i, sizes[i]) if ver == 2 else 'bit[%d] c%d;' % (sizes[i], i)) + w.eol()
        if rng.random() < .4: text += definition()
        for _ in range(rng.randint(0, 3) if i < nreg - 1 else rng.randint(1, 7)):
            if rng.random() < .07 and len(defs) < 3: text += definition()
            s = gatecall(declared)
            if s: stmts.append(s[0]); text += s[1] + w.eol()
            if rng.random() < .05: text += 'barrier %s;' % names[i] + w.eol()
    if rng.random() < .2: text += ('measure %s[0] -> c0[0];' if ver == 2 else 'c0[0] = measure %s[0];') % names[0] + '\n'
    return ver, prog('qasm', sizes, stmts, defs), text

def qasm_read(c, n=60):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        plain = rng.random() < .4
        ver, p, text = qasm_program(rng, plain)
        try:
            ev = []
            def evt(nm, f):
                ok, r = call(f); ev.append((nm, 'prop', export_result(core.cobj, r) if ok else bad(r))); c.note(nm)
            evt('from_qasm', lambda: Circuit.from_qasm(text))
            if rng.random() < .3: evt('from_qasm_file', lambda: with_file(rng, text, rng.choice(['.qasm', '.txt', '']), lambda f: Circuit.load(f) if rng.random() < .5 else Circuit.from_qasm_file(f)))
            if ver == 2 and rng.random() < .3: evt('qasm()', lambda: zx.qasm('\n'.join(text.split('\n')[2:])))
            c.add('qasm', p, ev, text)
        except NotRepresentable: c.skipped += 1

def with_file(rng, text, ext, f):
    d = tempfile.mkdtemp(prefix='c09_')
    fn = os.path.join(d, 'prog' + ext)
    try:
        with open(fn, 'w') as h: h.write(text)
        return f(fn)
    finally:
        os.unlink(fn); os.rmdir(d)

# ---- parameter expressions that the parser may reject, but may not misread
def qasm_expr(c, n=40):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        k, l, d, e = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 8]), rng.choice([2, 4])
        v, t = rng.choice([
            (F(1, d) + F(1, e), 'pi/%d+pi/%d' % (d, e)), (F(1, d) - F(k, e), 'pi/%d - %d*pi/%d' % (d, k, e)), (F(k, d), '(%d*pi)/%d' % (k, d)), (F(1, d), '(pi/%d)' % d),
            (-F(1, d), '-(pi/%d)' % d), (F(k * l, d), '%d*%d*pi/%d' % (k, l, d)), (F(k, d * e), '%d*pi/%d/%d' % (k, d, e)), (F(k, d), 'pi*%d/%d' % (k, d)), (F(1, d) * l, 'pi/%d*%d' % (d, l)),
            (F(k * l), '%d*pi*%d' % (k, l)), (F(k, 2), '%d*pi/2.0' % k), (F(k, 10), '%de-1*pi' % k), (F(k, d), '%dpi/%d' % (k, d)), (F(-k, d), '%d*pi/-%d' % (k, d)), (F(k, d), '%d*(pi/%d)' % (k, d)),
            (F(1, d), '+pi/%d' % d), (F(k, d), 'pi * %d / %d' % (k, d)), (F(k, 8), '.125*%d*pi' % k), (F(k, 2), '%d*pi*0.5' % k), (2 - F(1, d), '2*pi-pi/%d' % d)])
        text = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\nh q[0];\nrz(%s) q[0];\nh q[0];\n' % t
        p = prog('qasm', [1], [stmt('h', [[1, 0]]), stmt('rz', [[1, 0]], [expr(fact(1, v))]), stmt('h', [[1, 0]])])
        try:
            ok, r = call(lambda: Circuit.from_qasm(text))
            if not ok and 'TypeError' in r: c.note('expression rejected'); continue
            c.add('qasm expression', p, [('from_qasm', 'prop', export_result(core.cobj, r) if ok else bad(r))], t); c.note('expression accepted')
        except NotRepresentable: c.skipped += 1

# ------------------------------------------------------- independent readers
class Unreadable(Exception): pass
def read_expr(s):
    m = re.fullmatch(r'\s*([-+]?[0-9.]+(?:e[-+]?\d+)?)\s*\*\s*pi\s*', s)
    if not m: raise Unreadable('parameter ' + s)
    q = F(float(m.group(1))).limit_denominator(16800)
    if abs(float(q) - float(m.group(1))) > 1e-7: raise NotRepresentable('parameter ' + s)
    if (q * core.HALF).denominator != 1: raise NotRepresentable('parameter ' + s)
    return expr(fact(1, abs(q)), neg=q < 0)
def read_qasm(text):
    body = re.sub(r'//.*', '', text); regs = []; idx = {}; st = []
    cmds = [x.strip() for x in body.split(';') if x.strip()]
    head = cmds.pop(0)
    m = re.fullmatch(r'OPENQASM ([23])(\.0)?', head)
    if not m: raise Unreadable('header ' + head)
    inc = cmds.pop(0)
    if inc != 'include "%s"' % ('qelib1.inc' if m.group(1) == '2' else 'stdgates.inc'): raise Unreadable('include ' + inc)
    for x in cmds:
        d = re.fullmatch(r'qreg (\w+)\[(\d+)\]' if m.group(1) == '2' else r'qubit\[(\d+)\] (\w+)', x)
        if d:
            nm, sz = (d.group(1), d.group(2)) if m.group(1) == '2' else (d.group(2), d.group(1))
            idx[nm] = len(regs) + 1; regs.append(int(sz)); continue
        g = re.fullmatch(r'(\w+)\s*(?:\(([^()]*)\))?\s*(.*)', x, re.S)
        if not g: raise Unreadable(x)
        args = []
        for a in g.group(3).split(','):
            q = re.fullmatch(r'\s*(\w+)\[(\d+)\]\s*', a)
            if not q or q.group(1) not in idx: raise Unreadable(x)
            args.append([idx[q.group(1)], int(q.group(2))])
        ps = [read_expr(e) for e in g.group(2).split(',')] if g.group(2) is not None else []
        if g.group(1) in ARITY and ARITY[g.group(1)] != (len(args), len(ps)): raise Unreadable(x)
        st.append(stmt(g.group(1), args, ps))
    return prog('qasm', regs, st)

def read_qc(text):
    pre, rest = text.split('BEGIN', 1); body = rest.split('END')[0]
    idx = {}
    for l in pre.splitlines():
        if l.startswith('.'):
            for v in re.split(r'[ ,]+', l[2:].strip()):
                if v and v not in idx: idx[v] = len(idx)
    st = []
    for l in body.splitlines():
        l = l.strip()
        if not l or l.startswith('#'): continue
        x = re.split(r'[ ,]+', l)
        if any(v not in idx for v in x[1:]): raise Unreadable(l)
        st.append(stmt(x[0].lower(), [[1, idx[v]] for v in x[1:]]))
    return prog('qc', [len(idx)], st)

def read_quipper(text):
    lines = text.strip().splitlines()
    m = re.fullmatch(r'Inputs: (.*)', lines[0]); ins = [x.strip() for x in m.group(1).split(',')] if m else None
    if ins is None or not lines[-1].startswith('Outputs: '): raise Unreadable('header')
    n = len(ins); st = []
    if ins != ['%d:Qbit' % i for i in range(n)]: raise Unreadable(lines[0])
    for l in lines[1:-1]:
        r = re.fullmatch(r'QRot\["(exp\(-i%[XYZ]\))",([-0-9.e]+)\]\((\d+)\)', l)
        if r:
            q = F(float(r.group(2)) / math.pi).limit_denominator(33600)
            if abs(float(q) - float(r.group(2)) / math.pi) > 1e-7 or (q * core.HALF).denominator != 1: raise NotRepresentable(l)
            st.append(stmt(r.group(1), [[1, int(r.group(3))]], [expr(fact(1, abs(q)), neg=q < 0)])); continue
        g = re.fullmatch(r'QGate\["(\w+)"\](\*?)\((\d+)\)(?: with controls=\[([^\]]*)\])?(?: with nocontrol)?', l)
        if not g: raise Unreadable(l)
        ctl = [x.strip() for x in g.group(4).split(',')] if g.group(4) else []
        st.append(stmt(g.group(1) + g.group(2), [[1, int(x[1:])] for x in ctl] + [[1, int(g.group(3))]], neg=[k + 1 for k, x in enumerate(ctl) if x[0] == '-']))
    return prog('quipper', [n], st)

def spread(rng, a):
    """the same circuit on some wires of a much wider register; pos: the wire of each qubit"""
    Q = rng.choice([9, 11, 12, 13, 24, 101]); pos = rng.sample(range(Q), a.qubits)
    if rng.random() < .5: pos.sort()
    b = Circuit(Q)
    for g in a.gates:
        g = g.copy()
        for k in ('target', 'control', 'ctrl1', 'ctrl2'):
            if hasattr(g, k): setattr(g, k, pos[getattr(g, k)])
        if hasattr(g, 'targets'): g.targets = tuple(pos[t] for t in g.targets)
        b.gates.append(g)
    return b, Q, pos
def narrow(o, Q, pos):
    """back to the used wires; the others have to be there, untouched"""
    if o['k'] == 'bad': return o
    at = {w: i for i, w in enumerate(pos)}
    if o['k'] == 'circ':
        if o['c']['n'] != Q: return bad('%d qubits instead of %d' % (o['c']['n'], Q))
        if any(w - 1 not in at for g in o['c']['gates'] for w in g['q']): return bad('a gate is on another wire')
        return {'k': 'circ', 'c': {'n': len(pos), 'gates': [{**g, 'q': [at[w - 1] + 1 for w in g['q']]} for g in o['c']['gates']]}}
    p = o['p']
    if p['regs'] != [Q]: return bad('the register has %s qubits instead of %d' % (p['regs'], Q))
    if any(x[1] not in at for t in p['stmts'] for x in t['args']): return bad('a statement is on another wire')
    return {'k': 'prog', 'p': {**p, 'regs': [len(pos)], 'stmts': [{**t, 'args': [[r, at[x]] for r, x in t['args']]} for t in p['stmts']]}}

def printers(c, n=60):
    """printed circuits denote the circuit, and can be read back"""
    rng = c.rng
    QCOK = ['Z', 'S', 'Sd', 'T', 'Td', 'NOT', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CCZ', 'Tofolli', 'CSWAP', 'ZPhase', 'XPhase', 'ParityPhase', 'RZZ', 'SX', 'SXd', 'CSX', 'CHAD', 'CY', 'Y', 'YPhase']
    for i in range(n):
        if not c.more(): break
        q = rng.choice([1, 2, 3, 3, 4]); lang = rng.choice(['qasm', 'qasm', 'qc', 'quipper'])
        if rng.random() < .5:     # one gate of each kind in turn
            kinds = [k for k in (QCOK if lang == 'qc' else KINDS) if k != 'FSim']
            kind = kinds[(i + c.shard * 7) % len(kinds)]; q = 3; pk = 'T' if lang == 'qc' else rng.choice(['any', 'T'])
            a = Circuit(q); a.add_gate(make(kind, rng.sample(range(q), rng.randint(1, q) if kind == 'ParityPhase' else q), lambda: gens.angle(rng, pk)))
        else:
            pk = 'T' if lang == 'qc' else rng.choice(['any', 'T'])
            a = gens.rand_circuit(rng, q, rng.randint(0, 8), 'opt' if lang == 'qc' else rng.choice(['full', 'full', 'opt']), pk)
            a.gates = [g for g in a.gates if not isinstance(g, G.FSim)]
        try:
            A = core.cobj(a); ver = rng.choice([2, 3]); ev = []; fit = lambda o: o
            if rng.random() < .2:
                a, Q, pos = spread(rng, a); fit = lambda o: narrow(o, Q, pos)
            pr = {'qasm': lambda: a.to_qasm(ver), 'qc': a.to_qc, 'quipper': a.to_quipper}[lang]
            rd = {'qasm': read_qasm, 'qc': read_qc, 'quipper': read_quipper}[lang]
            ps = {'qasm': Circuit.from_qasm, 'qc': Circuit.from_qc, 'quipper': Circuit.from_quipper}[lang]
            ok, t = call(pr); c.note('to_' + lang)
            if not ok:
                # a language that has no word for a rotation may refuse it
                if lang == 'qc' and 'TypeError' in t and any(g.name in ('SX', 'CSX', 'YPhase', 'Y', 'CY', 'CHAD') or (hasattr(g, 'phase') and F(g.phase).denominator > 4) for g in a.gates):
                    c.note('refused'); continue
                ev.append(('to_' + lang, 'prop', bad(t)))
            else:
                try: o = fit(rd(t))
                except Unreadable as x: o = bad('printed text is not in the language: %s' % x)
                ev.append(('to_' + lang, 'prop', o))
                ok, r = call(ps, t)
                ev.append(('to_%s, read back' % lang, 'prop', fit(export_result(core.cobj, r)) if ok else bad(r)))
            ev.append(('circuit untouched', 'eq', fit(export(core.cobj, a))))
            c.add('print ' + lang, A, ev, gens.circ_desc(a) + ' ## ' + repr(t))
        except NotRepresentable: c.skipped += 1

def qc_read(c, n=40):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 7); names = rng.sample(['a', 'b', 'q0', 'q1', 'x', 'c_1', 'T', 'anc', '0', '1'], q)
        text = ('# comment\n' if rng.random() < .2 else '') + '.v ' + rng.choice([' ', ',']).join(names) + '\n'
        if rng.random() < .4: text += '.i ' + ' '.join(rng.sample(names, rng.randint(1, q))) + '\n'
        if rng.random() < .4: text += '.o ' + ' '.join(names) + '\n'
        text += rng.choice(['', '\n']) + 'BEGIN\n'
        st = []; big = 0
        for _ in range(rng.randint(1, 8)):
            opts = [(1, g) for g in ('tof', 't1', 'not', 'X', 'Z', 'S', 'P', 'S*', 'P*', 'T', 'T*', 'H', 'h')]
            if q > 1: opts += [(2, g) for g in ('cnot', 'tof', 't2', 'cz', 'Z', 'swap')] * 2
            if q > 2: opts += [(3, g) for g in ('t3', 'tof', 'ccz', 'Z')] * 2
            for m in range(4, q + 1):
                if big < 2: opts += [(m, g) for g in ('t%d' % m, 'tof', 'Tof')] * 2
            k, g = rng.choice(opts)
            if k > 3: big += 1
            if k > 7: continue
            args = rng.sample(range(q), k)
            if rng.random() < .1: text += '# tof a b\n'
            text += rng.choice(['', '', ' ']) + g + ' ' + rng.choice([' ', ' ', ', ', ',']).join(names[x] for x in args) + '\n'
            st.append(stmt(g.lower(), [[1, x] for x in args]))
        text += 'END\n'
        try:
            na = max([0] + [len(s['args']) - 3 for s in st if len(s['args']) > 3])
            ok, r = call(lambda: with_file(rng, text, rng.choice(['.qc', '.tfc', '']), lambda f: Circuit.load(f)) if rng.random() < .3 else Circuit.from_qc(text)); c.note('from_qc')
            def ex():
                rec = core.circ_rec(r)
                if rec['n'] < q: return {'k': 'circ', 'c': rec}
                if rec['n'] > 11: raise NotRepresentable('large')
                return {'k': 'anc', 'c': rec, 'anc': list(range(q + 1, rec['n'] + 1)), 'st': 0}
            c.add('qc', prog('qc', [q], st), [('from_qc', 'prop', export_result(ex) if ok else bad(r))], text)
        except NotRepresentable: c.skipped += 1

def quipper_read(c, n=30):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 5); k = rng.choice([0, 0, 0, 1]); tot = q + k
        text = 'Inputs: ' + ', '.join('%d:Qbit' % j for j in range(q)) + rng.choice(['', ',']) * 0 + '\n'; st = []
        for j in range(k): text += 'QInit0(%d)\n' % (q + j)
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            if r < .2:
                t = rng.randrange(tot); v = rng.choice([F(1, 4), F(1, 8), F(-1, 8), F(1, 3), F(3, 4), F(rng.randint(1, 4199), 4200)]); ax = rng.choice('ZX')
                text += 'QRot["exp(-i%%%s)",%r](%d)\n' % (ax, float(v) * math.pi, t)
                st.append(stmt('exp(-i%%%s)' % ax, [[1, t]], [expr(fact(1, abs(v)), neg=v < 0)])); continue
            nc = rng.choice([0, 0, 1, 2]); nc = min(nc, tot - 1); xs = rng.sample(range(tot), nc + 1)
            g = rng.choice({0: ['H', 'not', 'Z', 'S', 'T', 'S*', 'T*'], 1: ['not', 'Z', 'X'], 2: ['not', 'Z']}[nc])
            neg = [j for j in range(nc) if nc == 2 and rng.random() < .4]
            text += 'QGate["%s"]%s(%d)' % (g.rstrip('*'), '*' if g.endswith('*') else '', xs[-1])
            if nc: text += ' with controls=[%s]' % rng.choice([', ', ',']).join(('-' if j in neg else '+') + str(xs[j]) for j in range(nc))
            text += rng.choice([' with nocontrol', '']) + '\n'
            st.append(stmt(g, [[1, x] for x in xs], neg=[j + 1 for j in neg]))
            if rng.random() < .1: text += 'Comment["foo"]()\n'
        text += 'Outputs: ' + ', '.join('%d:Qbit' % j for j in range(q))
        try:
            ok, r = call(lambda: with_file(rng, text, rng.choice(['.quip', '.quipper', '']), lambda f: Circuit.load(f)) if rng.random() < .3 else Circuit.from_quipper(text)); c.note('from_quipper')
            c.add('quipper', prog('quipper', [tot], st), [('from_quipper', 'prop', export_result(core.cobj, r) if ok else bad(r))], text)
        except NotRepresentable: c.skipped += 1

def qsim_read(c, n=20):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        q = rng.randint(1, 4); text = '%d\n' % q; st = []
        for j in range(rng.randint(1, 8)):
            g = rng.choice(['rz', 'hz_1_2', 'x_1_2', 'y_1_2', 'fs'] if q > 1 else ['rz', 'hz_1_2', 'x_1_2', 'y_1_2'])
            if g == 'fs':
                a, b = rng.sample(range(q), 2); v = gens.phase(rng, 'any') if rng.random() < .7 else F(rng.randint(1, 8399), 4200)
                text += '%d fs %d %d %r %r\n' % (j, a, b, math.pi / 2, float(v) * math.pi); st.append(stmt('fs', [[1, a], [1, b]], [expr(fact(1, F(1, 2))), expr(fact(1, v))]))
            else:
                t = rng.randrange(q); v = gens.phase(rng, 'any') if rng.random() < .7 else F(rng.randint(1, 8399), 4200)
                text += '%d %s %d%s\n' % (j, g, t, ' %r' % (float(v) * math.pi) if g == 'rz' else ''); st.append(stmt(g, [[1, t]], [expr(fact(1, v))] if g == 'rz' else []))
        try:
            ok, r = call(lambda: with_file(rng, text, '.qsim', Circuit.load if rng.random() < .5 else Circuit.from_qsim_file)); c.note('from_qsim')
            c.add('qsim', prog('qsim', [q], st), [('from_qsim', 'prop', export_result(core.cobj, r) if ok else bad(r))], text)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 6 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c09', [('qasm_read', dict(n=70 * k)), ('qasm_expr', dict(n=25 * k)), ('printers', dict(n=130 * k)), ('qc_read', dict(n=30 * k)), ('quipper_read', dict(n=25 * k)), ('qsim_read', dict(n=12 * k))], b))
    return chk.finish('generated programs in four languages and printed circuits; non-trivial when programs and circuits are distinct')
