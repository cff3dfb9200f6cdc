"""Seeded input generators.  They build objects through the public graph and
circuit API only, and do not use pyzx.generate (which is itself under test)."""
from fractions import Fraction as F
import core
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.circuit import gates as G

PH = {
    'zero': [0],
    'pauli': [0, 1],
    'cliff': [0, F(1, 2), 1, F(3, 2)],
    'T': [F(k, 4) for k in range(8)],
    'any': [0, 1, F(1, 2), F(3, 2), F(1, 4), F(7, 4), F(3, 4), F(5, 4), F(1, 3), F(5, 3), F(2, 5), F(1, 8), F(15, 8), F(1, 16), F(6, 7)],
    'nonc': [F(1, 4), F(7, 4), F(3, 4), F(5, 4), F(1, 3), F(1, 8)],
}
def size(rng, lo, hi, top, p=.08):
    """usually lo..hi, sometimes up to top: most defects show on small objects, some need a larger one"""
    return rng.randint(hi + 1, top) if rng.random() < p else rng.randint(lo, hi)

def phase(rng, kind): return F(rng.choice(PH[kind]))

def angle(rng, kind):
    """a rotation angle, not necessarily reduced"""
    p = phase(rng, kind); r = rng.random()
    return p if r < .6 else (-p if r < .8 else p + rng.choice([-2, 2, -4]))

def mixed(rng, kind, p0=0.4):
    """phase from kind but often Pauli/Clifford so that rules fire"""
    r = rng.random()
    if r < p0: return F(rng.choice(PH['pauli']))
    if r < p0 + 0.25: return F(rng.choice(PH['cliff']))
    return phase(rng, kind)

# ------------------------------------------------------------- circuits
def rand_gate(rng, q, kind, phk):
    t = rng.randrange(q)
    def two():
        a = rng.randrange(q); b = rng.randrange(q - 1)
        return (a, b if b < a else b + 1)
    def three(): return tuple(rng.sample(range(q), 3))
    opts = []
    if kind == 'cliff': opts = ['h', 's', 'sd', 'z', 'x', 'cx', 'cz', 'xs']
    elif kind == 'T': opts = ['h', 'h', 's', 'z', 'x', 'cx', 'cx', 'cz', 't', 't', 'td']
    elif kind == 'zx': opts = ['h', 'h', 'zp', 'zp', 'xp', 'cx', 'cx', 'cz', 'cz']
    elif kind == 'cnotT': opts = ['cx', 'cx', 't', 'td', 's', 'cz', 'z', 'x', 'sw']
    elif kind == 'full': opts = ['h', 's', 'sd', 't', 'td', 'z', 'x', 'y', 'sx', 'zp', 'xp', 'yp', 'cx', 'cz', 'xcx', 'sw', 'cy', 'crz', 'cp', 'pp',
                                 'ccz', 'tof', 'csw', 'crx', 'cry', 'rzz', 'rxx', 'ch', 'csx', 'u2', 'u3', 'cu3', 'cu', 'fsim']
    elif kind == 'basic': opts = ['h', 'zp', 'xp', 'cx', 'cz', 'sw', 'x', 'z', 's', 't']
    elif kind == 'opt': opts = ['h', 'h', 'zp', 't', 's', 'xp', 'cx', 'cx', 'cz', 'sw', 'x', 'z', 'xcx', 'ccz', 'tof', 'pp']
    else: raise ValueError(kind)
    while True:
        o = rng.choice(opts)
        if o in ('cx', 'cz', 'xcx', 'sw', 'cy', 'crz', 'cp', 'crx', 'cry', 'rzz', 'rxx', 'ch', 'csx', 'cu3', 'cu', 'fsim') and q < 2: continue
        if o in ('ccz', 'tof', 'csw') and q < 3: continue
        break
    p = angle(rng, phk) if kind == 'full' else phase(rng, phk)
    if o == 'h': return G.HAD(t)
    if o == 's': return G.S(t)
    if o == 'sd': return G.S(t, adjoint=True)
    if o == 't': return G.T(t)
    if o == 'td': return G.T(t, adjoint=True)
    if o == 'z': return G.Z(t)
    if o == 'x': return G.NOT(t)
    if o == 'y': return G.Y(t)
    if o == 'sx': return G.SX(t, adjoint=rng.random() < .5)
    if o == 'xs': return G.XPhase(t, F(rng.choice([1, 3]), 2))
    if o == 'zp': return G.ZPhase(t, p)
    if o == 'xp': return G.XPhase(t, p)
    if o == 'yp': return G.YPhase(t, p)
    if o == 'pp': return G.ParityPhase(p, *rng.sample(range(q), rng.randint(1, q)))
    if o in ('cx', 'cz', 'xcx', 'sw', 'cy', 'ch', 'csx'):
        a, b = two()
        return {'cx': G.CNOT, 'cz': G.CZ, 'xcx': G.XCX, 'sw': G.SWAP, 'cy': G.CY, 'ch': G.CHAD, 'csx': G.CSX}[o](a, b)
    if o in ('crz', 'cp', 'crx', 'cry', 'rzz', 'rxx'):
        a, b = two()
        return {'crz': G.CRZ, 'cp': G.CPhase, 'crx': G.CRX, 'cry': G.CRY, 'rzz': G.RZZ, 'rxx': G.RXX}[o](a, b, p)
    if o == 'ccz': return G.CCZ(*three())
    if o == 'tof': return G.Tofolli(*three())
    if o == 'csw': return G.CSWAP(*three())
    if o == 'u2': return G.U2(t, p, phase(rng, phk))
    if o == 'u3': return G.U3(t, p, phase(rng, phk), phase(rng, phk))
    if o == 'cu3': a, b = two(); return G.CU3(a, b, p, phase(rng, phk), phase(rng, phk))
    if o == 'cu': a, b = two(); return G.CU(a, b, p, phase(rng, phk), phase(rng, phk), phase(rng, phk))
    if o == 'fsim': a, b = two(); return G.FSim(a, b, F(1, 2), p)

def rand_circuit(rng, q, depth, kind='T', phk='T'):
    c = zx.Circuit(q)
    for _ in range(depth): c.gates.append(rand_gate(rng, q, kind, phk))
    return c

def circ_desc(c): return '%d qubits: %s' % (c.qubits, '; '.join(str(g) for g in c.gates))

# ------------------------------------------------------------- diagrams
def renamed(rng, g, p=1.0):
    """the same diagram with other vertex names, vertices and edges in another order"""
    if rng.random() >= p: return g
    old = list(g.vertices()); names = rng.sample(range(len(old) + rng.choice([0, 0, 3, 12])), len(old)); h = zx.Graph(type(g).backend)
    if hasattr(g, '_auto_simplify'): h.set_auto_simplify(g._auto_simplify)
    m = dict(zip(old, names)); rng.shuffle(old)
    for v in old:
        w = m[v]; h.add_vertex_indexed(w); h.set_type(w, g.type(v)); h.set_phase(w, g.phase(v))
        if g.row(v) != -1 or g.qubit(v) != -1: h.set_position(w, g.qubit(v), g.row(v))
        h.set_ground(w, g.is_ground(v))
        for k in g.vdata_keys(v): h.set_vdata(w, k, g.vdata(v, k))
    es = list(g.edges()); rng.shuffle(es)
    for e in es:
        a, b = g.edge_st(e)
        if rng.random() < .5: a, b = b, a
        h.add_edge((m[a], m[b]), g.edge_type(e))
    h.set_inputs(tuple(m[v] for v in g.inputs())); h.set_outputs(tuple(m[v] for v in g.outputs()))
    h.scalar = g.scalar.copy(); h.variable_types = dict(g.variable_types)
    return h

def rand_diagram(rng, n, nin, nout, phk='T', ptype=0.5, phad=0.5, dens=0.4, gl=False, hbox=0.0, backend=None, scalar=True, mix=True, direct=0.1, isolate=0.05):
    """random ZX(H) diagram: n spiders, boundaries, simple graph.
    gl: graph-like (Z spiders, Hadamard edges between spiders)"""
    g = zx.Graph(backend) if backend else zx.Graph()
    vs = []
    for i in range(n):
        r = rng.random()
        if hbox and r < hbox: t = VT.H_BOX
        elif gl: t = VT.Z
        else: t = VT.Z if rng.random() < ptype else VT.X
        p = mixed(rng, phk) if mix else phase(rng, phk)
        if t == VT.H_BOX: p = F(1) if rng.random() < .6 else phase(rng, phk)
        vs.append(g.add_vertex(t, qubit=rng.randint(0, 3), row=i + 1, phase=p))
    def et():
        if gl: return ET.HADAMARD
        return ET.HADAMARD if rng.random() < phad else ET.SIMPLE
    for i in range(n):
        for j in range(i):
            if rng.random() < dens: g.add_edge((vs[i], vs[j]), et())
        if i and g.vertex_degree(vs[i]) == 0 and rng.random() > isolate:
            g.add_edge((vs[i], vs[rng.randrange(i)]), et())
    ins, outs = [], []
    nd = 0
    while nd < min(nin, nout) and rng.random() < direct: nd += 1
    for k in range(nin): ins.append(g.add_vertex(VT.BOUNDARY, k, 0))
    for k in range(nout): outs.append(g.add_vertex(VT.BOUNDARY, k, n + 2))
    di = rng.sample(range(nin), nd); do = rng.sample(range(nout), nd)
    for a, b in zip(di, do): g.add_edge((ins[a], outs[b]), ET.HADAMARD if rng.random() < .4 else ET.SIMPLE)
    zs = vs if vs else []
    for k, b in list(enumerate(ins)) + list(enumerate(outs)):
        if (b in ins and ins.index(b) in di) or (b in outs and outs.index(b) in do): continue
        if not zs:
            v = g.add_vertex(VT.Z, k, 1); zs = [v]; vs.append(v)
        v = rng.choice(zs)
        g.add_edge((b, v), ET.HADAMARD if rng.random() < (0.25 if gl else phad * .7) else ET.SIMPLE)
    perm_i = ins[:]; perm_o = outs[:]
    g.set_inputs(tuple(perm_i)); g.set_outputs(tuple(perm_o))
    if scalar: rand_scalar(rng, g.scalar)
    return renamed(rng, g, .2)

def zw_diagram(rng, nw, nz, nin, nout, zbox=.5, dens=.4):
    """diagrams with W nodes and Z-boxes"""
    g = zx.Graph()
    ports = []      # W inputs take exactly one wire, W outputs any number
    outs_, ins_ = [], []
    for i in range(nw):
        a = g.add_vertex(VT.W_INPUT, 0, i); b = g.add_vertex(VT.W_OUTPUT, 0, i + .3)
        g.add_edge((a, b), ET.W_IO); ins_.append(a); outs_.append(b)
    zs = []
    for i in range(nz):
        t = VT.Z_BOX if rng.random() < zbox else rng.choice([VT.Z, VT.X])
        v = g.add_vertex(t, 1, i)
        if t == VT.Z_BOX: g.set_vdata(v, 'label', rng.choice([1, 1, -1, 2, 0, 1j, F(1, 2), 0.5, 1 - 1j, -3]))
        else: g.set_phase(v, phase(rng, 'T'))
        zs.append(v)
    et = lambda: ET.HADAMARD if rng.random() < .3 else ET.SIMPLE
    bnd = [g.add_vertex(VT.BOUNDARY, 2, i) for i in range(nin + nout)]
    def con(x, y):
        if x != y and not g.connected(x, y): g.add_edge((x, y), et())
    def target(i):
        # W outputs of other nodes, spiders
        c = [outs_[j] for j in range(i)] + zs * 2
        return rng.choice(c) if c else None
    for i in range(nw):
        r = rng.random()
        if r < .6 and i > 0:      # acyclic: towards earlier W nodes only
            j = rng.randrange(i); g.add_edge((ins_[i], outs_[j]), ET.SIMPLE if rng.random() < .8 else ET.HADAMARD)
        else:
            t = target(i)
            if t is None: t = g.add_vertex(VT.Z, 1, 5, phase=phase(rng, 'T')); zs.append(t)
            g.add_edge((ins_[i], t), et())
        for z in zs:
            if rng.random() < dens: con(outs_[i], z)
    for a in range(len(zs)):
        for b in range(a):
            if rng.random() < dens * .7: con(zs[a], zs[b])
    for k in bnd:
        c = [o for o in outs_] + zs
        g.add_edge((k, rng.choice(c)), et())
    g.set_inputs(tuple(bnd[:nin])); g.set_outputs(tuple(bnd[nin:]))
    rand_scalar(rng, g.scalar)
    return renamed(rng, g, .2)

def rand_scalar(rng, s):
    if rng.random() < .5: s.add_power(rng.randint(-3, 3))
    if rng.random() < .3: s.add_phase(F(rng.randrange(8), 4))
    if rng.random() < .2: s.add_node(F(rng.choice([0, 1, 2, 3, 5, 6, 7]), 4))

def gadget_diagram(rng, nq, ngad, phk='T', nin=None):
    """graph-like diagram rich in phase gadgets (duplicated, overlapping, Clifford ones)"""
    g = zx.Graph()
    base = [g.add_vertex(VT.Z, q, 1, phase=mixed(rng, phk)) for q in range(nq)]
    for i in range(nq):
        for j in range(i):
            if rng.random() < .3: g.add_edge((base[i], base[j]), ET.HADAMARD)
    supports = []
    for k in range(ngad):
        if supports and rng.random() < .4: s = list(supports[rng.randrange(len(supports))])
        else: s = rng.sample(base, rng.randint(1, nq))
        supports.append(s)
        hub = g.add_vertex(VT.Z, -1, k + 2, phase=rng.choice([0, 0, 0, 1, 1, F(1, 2)]))
        leaf = g.add_vertex(VT.Z, -2, k + 2, phase=mixed(rng, phk, .15))
        g.add_edge((hub, leaf), ET.HADAMARD)
        for v in s: g.add_edge((hub, v), ET.HADAMARD)
    ins, outs = [], []
    for q in range(nq):
        if rng.random() < .85:
            b = g.add_vertex(VT.BOUNDARY, q, 0); g.add_edge((b, base[q]), ET.HADAMARD if rng.random() < .2 else ET.SIMPLE); ins.append(b)
        if rng.random() < .7:
            b = g.add_vertex(VT.BOUNDARY, q, ngad + 4); g.add_edge((b, base[q]), ET.HADAMARD if rng.random() < .2 else ET.SIMPLE); outs.append(b)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    rand_scalar(rng, g.scalar)
    return renamed(rng, g, .2)

def dump(g):
    """compact description of a diagram for replays"""
    try:
        r, _ = core.graph_plain(g)
        return 'ty=%s ph=%s ed=%s in=%s out=%s' % (r['ty'], [str(F(x, core.HALF)) for x in r['ph']], r['ed'], r['inp'], r['out'])
    except Exception as e:
        return 'undumpable (%s)' % e

def twin_diagram(rng, phk='nonc', pairs=None):
    """graph-like diagrams with pairs of spiders that have the same neighbours (supplementarity patterns)"""
    g = zx.Graph()
    base = [g.add_vertex(VT.Z, q, 1, phase=mixed(rng, 'T')) for q in range(rng.randint(1, 5))]
    for i in range(len(base)):
        for j in range(i):
            if rng.random() < .25: g.add_edge((base[i], base[j]), ET.HADAMARD)
    for k in range(pairs or rng.randint(1, 3)):
        s = rng.sample(base, rng.randint(1, min(len(base), 4)))
        a = phase(rng, phk)
        b = rng.choice([a, a + 1, -a, -a + 1, -a, a + 1])
        v = g.add_vertex(VT.Z, 0, 2 + k, phase=a); w = g.add_vertex(VT.Z, 1, 2 + k, phase=b)
        for x in s: g.add_edge((v, x), ET.HADAMARD); g.add_edge((w, x), ET.HADAMARD)
        if rng.random() < .1 and len(s) > 1: g.remove_edge(g.edge(w, s[0]))
        if rng.random() < .5: g.add_edge((v, w), ET.HADAMARD)
    return close(rng, g, base)

def close(rng, g, base, p=.7, phad=.2):
    ins, outs = [], []
    for q, v in enumerate(base):
        if rng.random() < p:
            b = g.add_vertex(VT.BOUNDARY, q, 0); g.add_edge((b, v), ET.HADAMARD if rng.random() < phad else ET.SIMPLE)
            (ins if rng.random() < .5 else outs).append(b)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); rand_scalar(rng, g.scalar)
    return renamed(rng, g, .2)

def salt(rng, g, kinds=(VT.Z,), had=1.0, n=None, phases=(0, 1)):
    """add single-legged spiders"""
    vs = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X, VT.H_BOX)]
    if not vs: return g
    for _ in range(n or rng.randint(1, 3)):
        u = g.add_vertex(rng.choice(kinds), 5, 0, phase=rng.choice(phases))
        g.add_edge((u, rng.choice(vs)), ET.HADAMARD if rng.random() < had else ET.SIMPLE)
    return g

def star_diagram(rng, phk='cliff', deg=None):
    """one or two adjacent interior spiders of high degree (local complementation, pivots with many neighbours)"""
    g = zx.Graph()
    n = deg or rng.randint(3, 6)
    zs = [g.add_vertex(VT.Z, i, 2, phase=mixed(rng, 'T')) for i in range(n)]
    cs = [g.add_vertex(VT.Z, -1, 1, phase=phase(rng, phk)) for _ in range(rng.choice([1, 2, 2]))]
    if len(cs) == 2: g.add_edge(tuple(cs), ET.HADAMARD)
    for c in cs:
        for z in zs:
            if rng.random() < .75: g.add_edge((c, z), ET.HADAMARD)
    for i in range(n):
        for j in range(i):
            if rng.random() < .2: g.add_edge((zs[i], zs[j]), ET.HADAMARD)
    return close(rng, g, zs, .85)

# ------------------------------------------------- diagrams of the specification
def spec_diagrams(chk, sizes=(2, 3)):
    """every start diagram of the rewriting model, after TLC has checked the model"""
    import tlc
    out = []
    for k in sizes: out += [x['g'] for x in tlc.printed(chk.model('ZXRulesGen.tla', 'ZXRulesGen%d.cfg' % k, workers=4)) if 'g' in x]
    out.sort(key=lambda g: (g['n'], g['ph'], g['ed']))
    return out

def build(r, backend=None, outs=None, gap=False):
    """the diagram of a record without labels; boundary legs are inputs, except those in outs"""
    g = zx.Graph(backend) if backend else zx.Graph()
    vs = [g.add_vertex(r['ty'][i], i, i, phase=F(r['ph'][i], 16800)) for i in range(r['n'])]
    if gap:
        x = g.add_vertex(VT.Z); vs = [g.add_vertex(r['ty'][i], i, i, phase=F(r['ph'][i], 16800)) for i in range(r['n'])]
        g.remove_vertices([v for v in g.vertices() if v not in vs])
    for a, b, t in r['ed']: g.add_edge((vs[a - 1], vs[b - 1]), ET.HADAMARD if t == 2 else ET.SIMPLE)
    bd = [vs[i - 1] for i in r['inp'] + r['out']]
    o = [b for i, b in enumerate(bd) if outs and i in outs]
    g.set_inputs(tuple(b for b in bd if b not in o)); g.set_outputs(tuple(o))
    return g

def nearmiss(rng, g, k=None, gl=False, hbox=True):
    """a structured diagram with a few random edits: matches that just fail to be ones"""
    for _ in range(k or rng.choice([1, 1, 1, 2, 3])):
        op = rng.choice(['edge', 'edge', 'colour', 'phase', 'phase', 'split', 'split', 'leaf', 'drop', 'legs'])
        sp = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]; inner = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X, VT.H_BOX)]
        es = [e for e in g.edges() if g.edge_type(e) in (ET.SIMPLE, ET.HADAMARD)]
        if gl: op = rng.choice(['phase', 'leaf', 'drop', 'legs', 'bedge'])
        if op == 'edge' and es: e = rng.choice(es); g.set_edge_type(e, ET.HADAMARD if g.edge_type(e) == ET.SIMPLE else ET.SIMPLE)
        elif op == 'bedge':
            es = [e for e in es if any(g.type(v) == VT.BOUNDARY for v in g.edge_st(e))]
            if es: e = rng.choice(es); g.set_edge_type(e, ET.HADAMARD if g.edge_type(e) == ET.SIMPLE else ET.SIMPLE)
        elif op == 'colour' and sp: v = rng.choice(sp); g.set_type(v, VT.X if g.type(v) == VT.Z else VT.Z)
        elif op == 'phase' and inner: g.set_phase(rng.choice(inner), rng.choice([0, 1, 1, F(1, 2), F(3, 2), phase(rng, 'T')]))
        elif op == 'split' and es:
            e = rng.choice(es); s, t = g.edge_st(e); g.remove_edge(e)
            v = g.add_vertex(rng.choice([VT.Z, VT.X]), 1, 1, phase=rng.choice([0, 1, 1, F(1, 2)]))
            for x in (s, t): g.add_edge((x, v), rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
        elif op == 'leaf' and inner:
            v = g.add_vertex(VT.Z if gl else rng.choice([VT.Z, VT.Z, VT.X] + ([VT.H_BOX] if hbox and any(g.type(x) == VT.H_BOX for x in inner) else [])), 1, 1, phase=rng.choice([0, 0, 1, F(1, 4)]))
            g.add_edge((rng.choice(inner), v), ET.HADAMARD if gl else rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
        elif op == 'legs' and inner:
            b = g.add_vertex(VT.BOUNDARY, 2, 2); g.add_edge((rng.choice(inner), b), rng.choice([ET.SIMPLE, ET.HADAMARD])); g.set_outputs(tuple(g.outputs()) + (b,))
        elif op == 'drop':
            es = [e for e in es if all(g.type(v) != VT.BOUNDARY for v in g.edge_st(e))]
            if es: g.remove_edge(rng.choice(es))
    return g
