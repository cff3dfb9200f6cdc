"""generators of H-box diagrams"""
from fractions import Fraction as F
import gens
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET

def salt(rng, g):
    """sometimes disturb one detail, so that the shape is nearly but not quite that of a rule"""
    vs = [v for v in g.vertices() if g.type(v) != VT.BOUNDARY]
    small = [v for v in vs if g.type(v) != VT.H_BOX and g.vertex_degree(v) <= 2] or vs
    v = rng.choice(small if rng.random() < .6 else vs); k = rng.random()
    if k < .4: g.set_phase(v, rng.choice([1, 0, F(1, 2), F(1, 4)]))
    elif k < .65:
        es = [e for e in g.incident_edges(v)]
        if es: e = rng.choice(es); g.set_edge_type(e, ET.HADAMARD if g.edge_type(e) == ET.SIMPLE else ET.SIMPLE)
    elif k < .8:
        b = g.add_vertex(VT.BOUNDARY, 0, 10); g.add_edge((v, b), rng.choice([ET.SIMPLE, ET.HADAMARD])); g.set_outputs(tuple(g.outputs()) + (b,))
    elif k < .9:
        u = g.add_vertex(rng.choice([VT.Z, VT.X]), 0, 10, phase=rng.choice([0, 1, F(1, 4)])); g.add_edge((v, u), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    elif g.type(v) != VT.H_BOX: g.set_type(v, VT.X if g.type(v) == VT.Z else VT.Z)
    return g

def hyper(rng, nz=None, nh=None, nots=0.2, phases='pi', zphase=0.2, bnd=True, legs=3):
    """Z-spiders joined by H-boxes (simple edges, some through NOTs), groups of H-boxes with equal supports"""
    g = zx.Graph()
    nz = nz or rng.randint(1, 5); nh = nh or rng.randint(1, 5)
    zs = [g.add_vertex(VT.Z, i, 1, phase=gens.phase(rng, 'T') if rng.random() < zphase else 0) for i in range(nz)]
    supp = []
    for k in range(nh):
        if supp and rng.random() < .5: s = list(rng.choice(supp))
        else: s = rng.sample(zs, rng.randint(1, min(nz, legs)))
        supp.append(s)
        if phases == 'pi': p = F(1)
        elif phases == 'mix': p = F(1) if rng.random() < .6 else gens.phase(rng, 'T')
        else: p = gens.phase(rng, phases)
        h = g.add_vertex(VT.H_BOX, rng.randint(0, 4), k + 2, phase=p)
        for z in s:
            if rng.random() < nots:
                if rng.random() < .7:
                    n = g.add_vertex(VT.X, 0, 2, phase=1); g.add_edge((h, n)); g.add_edge((n, z))
                else:
                    n = g.add_vertex(VT.Z, 0, 2, phase=1); g.add_edge((h, n), ET.HADAMARD); g.add_edge((n, z), ET.HADAMARD)
                if rng.random() < .25 and not g.connected(h, z): g.add_edge((h, z))
            else: g.add_edge((h, z))
    ins, outs = [], []
    if bnd:
        for z in zs:
            r = rng.random()
            if r < .6:
                b = g.add_vertex(VT.BOUNDARY, 0, 0); g.add_edge((z, b), ET.HADAMARD if rng.random() < .2 else ET.SIMPLE)
                (ins if rng.random() < .5 else outs).append(b)
                if rng.random() < .4:
                    b = g.add_vertex(VT.BOUNDARY, 0, 9); g.add_edge((z, b), ET.HADAMARD if rng.random() < .2 else ET.SIMPLE); outs.append(b)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    gens.rand_scalar(rng, g.scalar)
    return g

def intro_graph(rng):
    """pairs of H-boxes whose supports agree up to NOTs and single-legged spiders"""
    g = zx.Graph()
    nz = rng.randint(1, 4)
    zs = [g.add_vertex(VT.Z, i, 1) for i in range(nz)]
    p = rng.choice([F(1), F(1), F(1, 4), F(1, 2)])
    nsing = rng.choice([0, 0, 1, 2])
    pat = [rng.random() < .4 for _ in zs]
    flip = rng.randrange(nz)
    for k in range(2):
        h = g.add_vertex(VT.H_BOX, 3, k + 2, phase=p if rng.random() < .95 else F(1, 8))
        for i, z in enumerate(zs):
            neg = pat[i] ^ (k == 1 and i == flip) ^ (rng.random() < .05)
            if neg:
                if rng.random() < .7: n = g.add_vertex(VT.X, 0, 2, phase=1); g.add_edge((h, n)); g.add_edge((n, z))
                else: n = g.add_vertex(VT.Z, 0, 2, phase=1); g.add_edge((h, n), ET.HADAMARD); g.add_edge((n, z), ET.HADAMARD)
            else: g.add_edge((h, z))
        for _ in range(nsing if rng.random() < .95 else nsing + 1):
            s = g.add_vertex(VT.Z, 4, 4); g.add_edge((h, s))
    ins, outs = [], []
    for z in zs:
        b = g.add_vertex(VT.BOUNDARY, 0, 0); g.add_edge((z, b)); ins.append(b)
        if rng.random() < .5: b = g.add_vertex(VT.BOUNDARY, 0, 9); g.add_edge((z, b)); outs.append(b)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); gens.rand_scalar(rng, g.scalar)
    return g

def not_graph(rng):
    """an H-box connected to a spider directly and through a NOT"""
    g = zx.Graph()
    z = g.add_vertex(VT.Z, 0, 0, phase=rng.choice([0, 0, F(1, 4)]))
    h = g.add_vertex(VT.H_BOX, 1, 1, phase=F(1) if rng.random() < .9 else F(1, 2))
    if rng.random() < .5:
        n = g.add_vertex(VT.X, 0, 2, phase=1); g.add_edge((h, n)); g.add_edge((n, z), ET.SIMPLE if rng.random() < .9 else ET.HADAMARD)
    else:
        n = g.add_vertex(VT.Z, 0, 2, phase=1); g.add_edge((h, n), ET.HADAMARD); g.add_edge((n, z), ET.HADAMARD if rng.random() < .9 else ET.SIMPLE)
    g.add_edge((h, z), ET.SIMPLE if rng.random() < .9 else ET.HADAMARD)
    ins, outs = [], []
    for k in range(rng.randint(0, 3)):
        w = g.add_vertex(rng.choice([VT.Z, VT.X]), k, 3, phase=gens.mixed(rng, 'T')); g.add_edge((h, w), rng.choice([ET.SIMPLE, ET.HADAMARD]))
        b = g.add_vertex(VT.BOUNDARY, k, 4); g.add_edge((w, b)); outs.append(b)
    b = g.add_vertex(VT.BOUNDARY, 5, 4); g.add_edge((z, b), rng.choice([ET.SIMPLE, ET.HADAMARD])); ins.append(b)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); gens.rand_scalar(rng, g.scalar)
    return g

def hchain(rng):
    """H-boxes of arity two and chains of H-boxes joined by Hadamard edges"""
    g = gens.rand_diagram(rng, rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 2), phk='T', dens=.35)
    for _ in range(rng.randint(1, 3)):
        es = [e for e in g.edges()]
        if not es: break
        e = rng.choice(es); s, t = g.edge_st(e); g.remove_edge(e)
        h = g.add_vertex(VT.H_BOX, 0, 0, phase=F(1) if rng.random() < .85 else gens.phase(rng, 'T'))
        g.add_edge((s, h), rng.choice([ET.SIMPLE, ET.HADAMARD])); g.add_edge((h, t), rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
        if rng.random() < .5:
            w = g.add_vertex(rng.choice([VT.Z, VT.Z, VT.X]), 0, 0, phase=gens.phase(rng, 'T')); g.add_edge((h, w), rng.choice([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
    return g

def copyg(rng):
    """single-legged Pauli spiders on Z, X and H-boxes"""
    g = gens.rand_diagram(rng, rng.randint(1, 4), rng.randint(0, 2), rng.randint(0, 2), phk=rng.choice(['pauli', 'T']), dens=.4, hbox=.4)
    vs = [v for v in g.vertices() if g.type(v) != VT.BOUNDARY]
    for _ in range(rng.randint(1, 2)):
        w = rng.choice(vs)
        u = g.add_vertex(rng.choice([VT.Z, VT.X, VT.X, VT.H_BOX]), 0, 0, phase=rng.choice([0, 1])); g.add_edge((u, w), rng.choice([ET.SIMPLE, ET.HADAMARD]))
    return g

def pivg(rng):
    """hyper-pivot shapes: two spiders joined by an arity 2 H-box, each with further H-boxes"""
    g = zx.Graph()
    a = g.add_vertex(VT.Z, 0, 0); b = g.add_vertex(VT.Z, 1, 0); h = g.add_vertex(VT.H_BOX, 2, 0, phase=F(1)); g.add_edge((a, h)); g.add_edge((h, b))
    zs = [g.add_vertex(VT.Z, k, 3) for k in range(rng.randint(1, 4))]
    for x, ph in ((a, False), (b, True)):
        for _ in range(rng.randint(0, 3)):
            k = g.add_vertex(VT.H_BOX, 0, 2, phase=gens.phase(rng, 'T') if ph and rng.random() < .5 else F(1)); g.add_edge((x, k))
            for z in rng.sample(zs, rng.randint(0 if rng.random() < .15 else 1, min(2, len(zs)))): g.add_edge((k, z))
    ins, outs = [], []
    if rng.random() < .3:
        o = g.add_vertex(VT.BOUNDARY, 0, 9); g.add_edge((rng.choice([a, b]), o), rng.choice([ET.SIMPLE, ET.HADAMARD])); outs.append(o)
    for z in zs:
        if rng.random() < .8: o = g.add_vertex(VT.BOUNDARY, 0, 9); g.add_edge((z, o)); ins.append(o)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs)); gens.rand_scalar(rng, g.scalar)
    return g

