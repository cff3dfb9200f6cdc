"""C14: histories of operations on global scalars against the abstract machine ScalarADT."""
from fractions import Fraction as F
import core, tlc, random, re, cmath
from framework import *
import pyzx as zx
from pyzx.graph.scalar import Scalar
from pyzx.symbolic import Poly, new_var

N = core.N
SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}; SUP['⁻'] = '-'
FR = {'¼': F(1, 4), '½': F(1, 2), '¾': F(3, 4)}

class Unreadable(Exception): pass
def number(t):
    t = t.strip()
    if t == '': return 1
    if t == '-': return -1
    try: return complex(t)
    except ValueError: raise Unreadable(t)

def read_latex(t):
    """the scalar a LaTeX form stands for"""
    r = dict(core.ONE, ff=None)
    if t == '0': return dict(core.ONE, zero=True)
    if t == '': return dict(core.ONE)
    m = re.fullmatch(r'\$(.*?)(?:\\sqrt\{2\}\^\{(-?\d+)\})?(?:\\exp\(i~\\frac\{(-?\d+)\\pi\}\{(\d+)\}\))?\$', t)
    if not m: raise Unreadable(t)
    r['ff'] = core.ring_of(number(m[1])); r['p2'] = int(m[2] or 0)
    r['ph'] = core.phase_idx(F(int(m[3]), int(m[4]))) if m[3] else 0
    return r

def read_unicode(t):
    r = dict(core.ONE)
    if t == '0': return dict(core.ONE, zero=True)
    m = re.fullmatch(r'(.*?)(?:√2([⁰¹²³⁴⁵⁶⁷⁸⁹⁻]+))?(?:exp\(i([¼½¾]|-?\d+/\d+)π\))?', t)
    if not m: raise Unreadable(t)
    r['ff'] = core.ring_of(number(m[1]))
    r['p2'] = int(''.join(SUP[c] for c in m[2])) if m[2] else 0
    if m[3]: r['ph'] = core.phase_idx(FR[m[3]] if m[3] in FR else F(m[3]))
    return r

def read_str(t):
    """repr-like form: number = factor exp sqrt nodes; numbers are rounded to two digits there"""
    t = t.split(' = ', 1)[1]
    m = re.fullmatch(r'(.*?)(?:exp\((.*?)ipi\))?sqrt\(2\)\^(-?\d+)((?:\(1\+exp\(.*?ipi\)\))*)', t)
    if not m: raise Unreadable(t)
    r = dict(core.ONE)
    r['ff'] = core.ring_of(complex(m[1].replace('i', 'j')) if m[1] else 1); r['p2'] = int(m[3])
    if m[2]: r['ph'] = core.phase_idx(F(m[2]))
    r['nodes'] = [core.phase_idx(F(x)) for x in re.findall(r'\(1\+exp\((.*?)ipi\)\)', m[4])]
    return r

def ispoly(s): return isinstance(s.phase, Poly) or any(isinstance(p, Poly) for p in s.phasenodes)

def ce(k): return cmath.exp(2j * cmath.pi * k / N)
def record(s, gp):
    """the stored fields; a factor outside the ring is written as a ring element times pairs of spiders that
    occurred in the history (gp), which the specification then evaluates exactly"""
    ff = s.floatfactor; r = {'p2': int(s.power2), 'ph': core.phase_idx(s.phase), 'nodes': [core.phase_idx(p) for p in s.phasenodes], 'ff': None, 'zero': bool(s.is_zero)}
    for use in ([], gp):
        w = 1
        for k, l in use: w *= (1 + ce(k) + ce(l) - ce(k + l))
        if use and (abs(w) < 1e-6 or abs(w) > 1e6): raise NotRepresentable('factors of extreme size')
        x = ff / w; sh = 0
        while use and abs(x) and abs(x) < 1 / 4: x *= 2; sh += 1
        try: r['ff'] = core.ring_of(x, tol=1e-11, maxm=8); r['ff'][4] += sh; break
        except NotRepresentable: pass
    else:
        if s.is_zero: r['ff'] = [0, 0, 0, 0, 0]; use = []
        elif gp: raise BadObject('floating point factor is not accounted for')
        else: raise NotRepresentable('factor')
    return r, [list(x) for x in use]

def observe(s, mayunk, text, gp):
    o = {'bad': '', 'unk': bool(s.is_unknown), 'mayunk': mayunk, 'zero': bool(s.is_zero), 'sc': core.ONE, 'gp': [], 'num': [], 'txt': []}
    if s.is_unknown: return o
    try: o['sc'], o['gp'] = record(s, gp)
    except NotRepresentable: raise
    except BadObject as e: o['bad'] = str(e); return o
    except Exception as e: o['bad'] = 'illegal scalar: %s' % type(e).__name__; return o
    if ispoly(s) or o['gp']: return o
    eighth = all((F(p) * 4).denominator == 1 for p in [s.phase] + s.phasenodes)
    try:
        x = complex(s) if text else s.to_number()
        if eighth:
            try: o['num'] = core.ring_of(x)
            except NotRepresentable: pass
        if text:
            for f, rd in ((s.to_latex, read_latex), (s.to_unicode, read_unicode), (s.__str__, read_str)):
                t = f()
                if rd is read_str and s.floatfactor not in (1, -1, 1j, -1j, 2, 0.5): continue
                if rd is not read_str and not all((F(p) * 4).denominator == 1 for p in s.phasenodes): continue
                try: o['txt'].append(rd(t))
                except NotRepresentable: pass
            s.polar_str()
    except Unreadable as e: o['bad'] = 'unreadable form %s' % str(e)[:40]
    except NotRepresentable: pass
    except Exception as e: o['bad'] = 'printing raised %s' % type(e).__name__
    return o

FLOATS = [0, 0.0, 1, -1, 1j, 2, 0.5, 1 + 1j, -1 - 1j, 2 ** 0.5, -(2 ** -0.5), 1 + 2 ** .5, 0.25j]
def phase_of(k, rng):
    """a phase standing for the angle with index k"""
    p = F(k, N // 2)
    x = rng.random()
    if x < .25: p += rng.choice([-4, -2, 2, 4])
    if p.denominator == 1 and rng.random() < .5: return int(p)
    return p

def perform(rs, e, rng, poly=None):
    """thunk for event e; angles become phases, symbolic ones when poly is given"""
    a = e['a']
    s = rs[e['r'] - 1] if 'r' in e else None
    P = lambda k: poly[k] if poly and k in poly else phase_of(k, rng)
    return {'new': lambda: rs.append(Scalar()), 'add_power': lambda: s.add_power(e['k']), 'add_phase': lambda: s.add_phase(P(e['k'])),
            'add_node': lambda: s.add_node(P(e['k'])), 'add_float': lambda: s.add_float(e['_f']), 'add_spider_pair': lambda: s.add_spider_pair(P(e['k']), P(e['l'])),
            'mult_with_scalar': lambda: s.mult_with_scalar(rs[e['s'] - 1]), 'set_unknown': lambda: s.set_unknown(), 'copy': lambda: rs.append(s.copy()),
            'json': lambda: rs.append(Scalar.from_json(s.to_json(), *([dict(a=True, b=True)] if poly else []))), 'conjugate': lambda: rs.append(s.conjugate()),
            'copy_conjugate': lambda: rs.append(s.copy(conjugate=True))}[a]

def generic(k, l): return k % (N // 4) and l % (N // 4) and (k % (N // 8) or l % (N // 8))
def play(c, site, hist, poly=None):
    rng = c.rng; rs = []; ev = []; mayunk = False; gps = []
    for i, e in enumerate(hist):
        ok, why = call(perform(rs, e, rng, poly)); c.note(e['a'])
        if e['a'] == 'add_spider_pair' and poly and (e['k'] in poly or e['l'] in poly): mayunk = True
        if e['a'] == 'new': gps.append([])
        elif e['a'] in ('copy', 'json'): gps.append(list(gps[e['r'] - 1]))
        elif e['a'] in ('conjugate', 'copy_conjugate'): gps.append([(-k % N, -l % N) for k, l in gps[e['r'] - 1]])
        elif e['a'] == 'mult_with_scalar': gps[e['r'] - 1] += gps[e['s'] - 1]
        elif e['a'] == 'add_spider_pair' and generic(e['k'], e['l']) and not (poly and (e['k'] in poly or e['l'] in poly)): gps[e['r'] - 1].append((e['k'], e['l']))
        e = {k: v for k, v in e.items() if k != '_f'}
        e['exc'] = '' if ok else why
        e['obs'] = []
        if ok:
            try: e['obs'] = [observe(s, mayunk, i > len(hist) - 3, g) for s, g in zip(rs, gps)]
            except NotRepresentable: c.skipped += 1; break
        ev.append(e)
        if not ok: break
    if ev: c.traces.append({'site': site, 'ev': ev, 'desc': ' ; '.join('%s(%s)' % (e['a'], ','.join(str(v) for k, v in e.items() if k not in ('a', 'exc', 'obs'))) for e in ev)})

def variables(rng):
    """symbolic phases and the angles they have in the environment of the harness"""
    out = {}
    for _ in range(3):
        p = Poly([])
        for v in rng.sample('abxy', rng.randint(1, 2)):
            p = p + new_var(v, v in 'ab') * rng.choice([1, F(1, 2), 2, F(-1, 4), F(3, 2)])
        if rng.random() < .3: p = p + F(rng.randint(1, 7), 4)
        if not p.terms: continue
        out[core.phase_idx(p)] = p
    return out

def history(c, n=60, length=14, symbolic=False):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        poly = variables(rng) if symbolic else None
        fine = rng.random() < .3
        def ang():
            if poly and rng.random() < .4: return rng.choice(list(poly))
            if fine: return rng.choice([rng.randrange(N), rng.randrange(64) * (N // 64), rng.randrange(8) * (N // 8)])
            return rng.randrange(8) * (N // 8)
        h = [{'a': 'new'}]; n = 1
        for _ in range(rng.randint(3, length)):
            a = rng.choice(['add_power', 'add_phase', 'add_phase', 'add_node', 'add_node', 'add_spider_pair', 'add_spider_pair', 'add_spider_pair', 'add_float', 'mult_with_scalar',
                            'copy', 'json', 'conjugate', 'copy_conjugate', 'new'] + (['set_unknown'] if rng.random() < .3 else []))
            e = {'a': a, 'r': rng.randint(1, n)}
            if a == 'add_power': e['k'] = rng.randint(-6, 12)
            elif a in ('add_phase', 'add_node'): e['k'] = ang()
            elif a == 'add_float':
                f = rng.choice(FLOATS if rng.random() < .5 else FLOATS[2:]); e['f'] = core.ring_of(f); e['_f'] = f
            elif a == 'add_spider_pair':
                e['k'] = ang(); e['l'] = rng.choice([ang(), -e['k'] % N, (e['k'] + N // 2) % N])
            elif a == 'mult_with_scalar': e['s'] = rng.randint(1, n)
            elif a in ('copy', 'json', 'conjugate', 'copy_conjugate', 'new'):
                if n >= 4: continue
                n += 1
            h.append(e)
        play(c, 'symbolic' if symbolic else 'history', h, poly)

def replay(c, hists=()):
    for i in range(c.shard, len(hists), c.nshards):
        if not c.more(): break
        h = [dict(e) for e in hists[i]]
        for e in h:
            if e['a'] == 'add_float': e['_f'] = sum(x * w for x, w in zip(e['f'][1:], (1, 2 ** -.5 * (1 + 1j), 1j, 2 ** -.5 * (1j - 1)))) if len(e['f']) == 5 else 0
            if e['a'] == 'add_float' and core.ring_of(e['_f']) != e['f']: e['f'] = core.ring_of(e['_f'])
        play(c, 'enumerated', h)

def pairs(c, den=8):
    """every pair of angles on a grid"""
    k = N // (2 * den); i = 0
    for a in range(2 * den):
        for b in range(2 * den):
            i += 1
            if i % c.nshards == c.shard:
                play(c, 'pairs', [{'a': 'new'}, {'a': 'add_spider_pair', 'r': 1, 'k': a * k, 'l': b * k}, {'a': 'conjugate', 'r': 1}, {'a': 'json', 'r': 1}])

def main(chk):
    k = 1 if chk.tier == 'quick' else 20
    cases = chk.gen('checks.c14', [('history', dict(n=60 * k)), ('history', dict(n=25 * k, symbolic=True)), ('pairs', dict(den=4 if chk.tier == 'quick' else 12))], 30 if chk.tier == 'quick' else 200)
    out = chk.model('ScalarGen.tla', 'ScalarGen2.cfg' if chk.tier == 'quick' else 'ScalarGen3.cfg', pure=False, workers=4, xmx='6g')
    hists = [h for h in tlc.printed(out) if isinstance(h, list)]
    chk.extra['histories_enumerated_by_TLC'] = len(hists)
    if chk.tier != 'quick': random.Random(chk.seed).shuffle(hists); hists = hists[:60000]
    cases += chk.gen('checks.c14', [('replay', dict(hists=hists))], 60 if chk.tier == 'quick' else 200)
    chk.validate_with('ScalarTrace.tla', 'ScalarTrace.cfg', cases, pure=False, shards=8)
    return chk.finish('a history is non-trivial when it is not identical to another')
