"""C30: measurement patterns on cluster states against module Mbqc."""
import core, gens, random, tlc
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx import mbqc
from pyzx.utils import VertexType as VT

def pat(m, n, inp, ev): return {'k': 'pat', 'p': {'m': m, 'n': n, 'inp': [list(x) for x in inp], 'ev': [list(e) for e in ev]}}
def frac(a): return F(a, (core.P - 1) // 2)

def do(g, e):
    t = VT.Z if e[3] == 1 else VT.X
    if e[0] == 'meas': mbqc.measure(g, (e[1], e[2]), t, frac(e[4]))
    else: mbqc.apply_pauli(g, (e[1], e[2]), t)

def behaviours(c, ms):
    """every behaviour of MbqcGen, replayed: the diagram after each step is the pattern so far, and in the end the outcomes do not matter"""
    for i, x in enumerate(ms):
        if i % c.nshards != c.shard: continue
        if not c.more(): break
        m, n, ev = x['m'], x['n'], x['pev']; inp = [(q, 0) for q in range(m)]
        g = mbqc.cluster_state(m, n, inp); at = c.rng.randrange(len(ev) + 1); desc = 'cluster_state(%d, %d, %s) %s' % (m, n, inp, ev); c.note('TLC behaviour')
        ok, r = True, None
        for k, e in enumerate(ev):
            if k == at: c.add('prefix', pat(m, n, inp, ev[:k]), [('the diagram so far', 'prop', export_result(core.gobj, g))], desc)
            ok, r = call(do, g, e)
            if not ok: break
        o = export_result(core.gobj, g) if ok else bad(r)
        c.add('behaviour', pat(m, n, inp, ev), [('the diagram', 'prop', o)], desc)
        half = (core.P - 1) // 2
        ref = [[*e[:4], e[4] % (core.P - 1)] for e in ev if e[0] == 'meas']
        # outcome 1 was written as the angle plus pi; it was followed by its corrections
        det = []
        for k, e in enumerate(ev):
            if e[0] == 'meas':
                one = k + 1 < len(ev) and ev[k + 1][0] == 'pauli'
                det.append([*e[:4], (e[4] + (half if one else 0)) % (core.P - 1)])
        c.add('outcomes do not matter', pat(m, n, inp, det), [('the corrected diagram', 'prop', o)], desc)

def rand(c, n):
    """random patterns, with measurements in both colours, corrections anywhere, and refused requests"""
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        m, w = rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (1, 4), (2, 3), (3, 2), (1, 5)])
        cells = [(q, r) for q in range(m) for r in range(w)]
        inp = sorted(x for x in cells if rng.random() < .4); given = list(inp); rng.shuffle(given)
        ok, g = call(mbqc.cluster_state, m, w, given) if given or rng.random() < .5 else call(mbqc.cluster_state, m, w)
        c.note('cluster_state'); ev = []; desc = 'cluster_state(%d, %d, %s)' % (m, w, given)
        if not ok: c.add('patterns', pat(m, w, inp, []), [('cluster_state', 'prop', bad(g))], desc); continue
        if rng.random() < .3: c.add('patterns', pat(m, w, inp, []), [('cluster_state', 'prop', export_result(core.gobj, g))], desc)
        live = set(cells); good = True; exp = []
        for _ in range(rng.randint(1, 7)):
            r = rng.random(); q = rng.choice(cells)
            if r < .12:
                q = rng.choice([(m, 0), (0, w), (-1, 0), (m + 2, w + 1)])
            e = (['meas', *q, rng.choice([1, 2]), int(gens.phase(rng, rng.choice(['cliff', 'T', 'any'])) * ((core.P - 1) // 2)) % (core.P - 1)] if rng.random() < .5 else ['pauli', *q, rng.choice([1, 2])])
            t = VT.Z if e[3] == 1 else VT.X
            if e[0] == 'meas':
                p = frac(e[4]); p = rng.choice([p, p, p - 2, p + 2]) if p.denominator not in (1, 2, 4) else rng.choice([p, float(p), p - 2] + ([int(p)] if p.denominator == 1 else []))
                ok, x = call(mbqc.measure, g, tuple(q), t, p) if not (e[3] == 1 and e[4] == 0 and rng.random() < .5) else call(mbqc.measure, g, tuple(q)); desc += ' measure(%s, %s, %s)' % (q, t, p)
            else:
                if rng.random() < .1:
                    ok, x = call(mbqc.apply_pauli, g, tuple(q), t, rng.choice([F(1, 2), F(3, 2)])); c.note('refused')
                    if ok: exp.append(('a Pauli with a phase that is not 0 or 1 is refused', 'prop', bad('it was accepted')))
                    continue
                if rng.random() < .1: call(mbqc.apply_pauli, g, tuple(q), t, 0); c.note('apply_pauli 0'); desc += ' apply_pauli(%s, %s, 0)' % (q, t); continue
                ok, x = call(mbqc.apply_pauli, g, tuple(q), t) if rng.random() < .5 else call(mbqc.apply_pauli, g, tuple(q), t, rng.choice([1, F(1)])); desc += ' apply_pauli(%s, %s)' % (q, t)
            c.note(e[0])
            if tuple(q) not in live:
                c.note('refused')
                if ok or 'ValueError' not in str(x): exp.append(('%s of a qubit that is not there is refused' % e[0], 'prop', bad('it was accepted' if ok else x))); break
                continue
            if not ok: exp.append((e[0], 'prop', bad(x))); break
            ev.append(e)
            if e[0] == 'meas': live.discard(tuple(q))
            if rng.random() < .3: c.add('patterns', pat(m, w, inp, ev), [(e[0], 'prop', export_result(core.gobj, g))], desc)
        c.add('patterns', pat(m, w, inp, ev), exp or [('the diagram', 'prop', export_result(core.gobj, g))], desc)

def main(chk):
    q = chk.tier == 'quick'; ms = []
    for k in ('13', '22', '23', '14', '32'):
        ms += [x for x in tlc.printed(chk.model('MbqcGen.tla', 'MbqcGen%s.cfg' % k, workers=4, pure=False)) if 'pev' in x]
    chk.extra['behaviours_enumerated_by_TLC'] = len(ms)
    if q: random.Random(chk.seed).shuffle(ms); ms = ms[:400]
    chk.validate(chk.gen('checks.c30', [('behaviours', dict(ms=ms)), ('rand', dict(n=60 if q else 1500))], 8 if q else 200))
    return chk.finish('a case is non-trivial when it is not identical to another')
