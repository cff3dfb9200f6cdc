"""C03: H-box rewriting preserves the linear map."""
from fractions import Fraction as F
import core, gens
from framework import *
import pyzx as zx
from pyzx import hrules as HR, hsimplify as HS, rules as R
from pyzx.utils import VertexType as VT, EdgeType as ET
from checks.c02 import rec
from checks.c03_gens import *

def wild(rng): return gens.rand_diagram(rng, gens.size(rng, 2, 6, 10), rng.randint(0, 2), rng.randint(0, 2), phk='T', dens=.35, hbox=.4)
def circ(rng):
    c = gens.rand_circuit(rng, gens.size(rng, 3, 4, 6), gens.size(rng, 1, 8, 16), kind='opt', phk='T')
    if rng.random() < .8: c.gates.insert(0, zx.gates.CCZ(*rng.sample(range(c.qubits), 3)) if rng.random() < .5 else zx.gates.Tofolli(*rng.sample(range(c.qubits), 3)))
    return c.to_graph()

def pair(mt, ap):
    def f(g):
        m = mt(g)
        if not m: return 0
        R.apply_rule(g, ap, m); return len(m)
    return f
def zero(g):
    m = [v for v in HR.match_zero_hbox(g) if all(g.type(w) == VT.Z and g.edge_type(g.edge(v, w)) == ET.SIMPLE for w in g.neighbors(v))]
    HR.zero_hbox(g, m); return len(m)
def hp(g):
    m = HR.match_hpivot(g)
    if not m: return 0
    HR.hpivot(g, m); return 1
def hform(g):
    """the form that match_hpivot expects"""
    HS.to_hypergraph_form(g); return g
def hyperform(g): HS.to_hypergraph_form(g); return 1
def back(g): HS.from_hypergraph_form(g); return 1

JOBS = [  # name, generator family, operation
 ('hadamards', [hchain, wild, circ], pair(HR.match_hadamards, HR.hadamard_to_h_edge)),
 ('hadamard_simp', [hchain, circ, hyper], lambda g: HS.hadamard_simp(g, quiet=True)),
 ('connected_hboxes', [hchain, wild], pair(HR.match_connected_hboxes, HR.fuse_hboxes)),
 ('hspider_simp', [hchain, wild], lambda g: HS.hspider_simp(g, quiet=True)),
 ('copy', [copyg], pair(HR.match_copy, HR.apply_copy)),
 ('hcopy_simp', [copyg], lambda g: HS.copy_simp(g, quiet=True)),
 ('parallel_not', [not_graph], pair(HR.match_hbox_parallel_not, HR.hbox_parallel_not_remove)),
 ('parallel_not_simp', [not_graph], lambda g: HS.hbox_parallel_not_remove_simp(g, quiet=True)),
 ('par_hbox', [hyper], pair(HR.match_par_hbox, HR.par_hbox)),
 ('par_hbox_simp', [hyper, circ], lambda g: HS.par_hbox_simp(g, quiet=True)),
 ('par_hbox_intro', [intro_graph], pair(HR.match_par_hbox_intro, HR.par_hbox_intro)),
 ('par_hbox_intro_simp', [intro_graph], lambda g: HS.par_hbox_intro_simp(g, quiet=True)),
 ('zero_hbox', [lambda r: hyper(r, phases='cliff')], zero),
 ('hpivot', [pivg], hp),
 ('hpivot_simp', [pivg, circ], lambda g: HS.hpivot_simp(g, quiet=True)),
 ('zh_simp', [wild, circ, copyg, hyper, intro_graph, not_graph], lambda g: HS.zh_simp(g, quiet=True)),
 ('to_hypergraph_form', [wild, circ, hchain, hyper], hyperform),
 ('from_hypergraph_form', [hyper, pivg, circ], lambda g: (HS.to_hypergraph_form(g), HS.from_hypergraph_form(g))[1] or 1),
 ('from_hypergraph_form_direct', [hyper, pivg], back),
]

def rulejob(c, n=100):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        name, fam, op = JOBS[(i + c.shard) % len(JOBS)]
        g = rng.choice(fam)(rng)
        if name not in ('zero_hbox', 'from_hypergraph_form_direct') and rng.random() < .45:
            (gens.nearmiss if rng.random() < .6 else salt)(rng, g)
            if name == 'hpivot' and rng.random() < .3: call(hform, g)
        try:
            start = core.gobj(g); desc = gens.dump(g) + ' ' + name; ev = []
            ok, r = call(op, g, _limit=20)
            c.note(name if not ok or r else 'nomatch:' + name)
            rec(c, 'hrules', g, start, ev, name, ok, r, desc)
            c.add('hrules', start, ev, desc)
        except NotRepresentable: c.skipped += 1

def main(chk):
    k = 1 if chk.tier == 'quick' else 12
    b = 14 * (1 if chk.tier == 'quick' else 10)
    chk.validate(chk.gen('checks.c03', [('rulejob', dict(n=480 * k))], b))
    return chk.finish('seeded random H-box diagrams per rule family; non-trivial when recorded objects are distinct')
