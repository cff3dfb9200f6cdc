"""Check driver: runs case generators against the real code (in parallel
processes), lets TLC judge what was recorded, reports, writes evidence."""
import os, sys, json, time, random, signal, traceback, hashlib, multiprocessing as mp, warnings
import core, tlc
from core import VERIF, NotRepresentable, BadObject, bad

warnings.filterwarnings('ignore')

class CaseTimeout(Exception): pass
def _alarm(*a): raise CaseTimeout()

class limit:
    """time limit around one call into the code under test"""
    def __init__(self, s): self.s = s
    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)

CALL_LIMIT = float(os.environ.get('VERIF_CALL_LIMIT', '60'))

def call(f, *a, **k):
    """call into the implementation: (True, result) or (False, 'why')"""
    lim = k.pop('_limit', CALL_LIMIT)
    try:
        with limit(lim):
            return True, f(*a, **k)
    except CaseTimeout:
        return False, 'did not terminate within %gs' % lim
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if isinstance(e, NotRepresentable): raise
        tb = traceback.extract_tb(e.__traceback__)
        loc = tb[-1].name if tb else '?'
        return False, 'raised %s: %s (in %s)' % (type(e).__name__, str(e)[:80], loc)

def export(f, *a, **k):
    """export an object produced by the implementation: an illegal object is
    recorded as such and judged by the specification"""
    try:
        return f(*a, **k)
    except BadObject as e:
        return bad('illegal object: %s' % e)
    except NotRepresentable:
        raise
    except Exception as e:
        return bad('illegal object: %s: %s' % (type(e).__name__, str(e)[:80]))

def export_result(f, *a, strict=True, **k):
    """as export, for results of operations on representable inputs: a value
    outside the representable ring cannot equal the expected one"""
    try:
        return export(f, *a, **k)
    except NotRepresentable as e:
        if 'too wide' in str(e) or not strict: raise
        return bad('value outside the ring of the input: %s' % e)

class Ctx:
    """passed to case generators"""
    def __init__(self, pid, tier, seed, idx, shard, nshards, budget):
        self.pid, self.tier, self.seed, self.idx = pid, tier, seed, idx
        self.shard, self.nshards = shard, nshards
        self.rng = random.Random('%s/%s/%s/%s' % (pid, seed, idx, shard))
        self.deadline = time.time() + budget
        self.traces = []
        self.skipped = 0
        self.notes = {}
    def note(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n
    def more(self): return time.time() < self.deadline
    def add(self, site, start, events, desc=''):
        """start: object; events: [(action name, relation, object)]"""
        self.traces.append({'site': site, 'desc': desc, 'start': start,
                            'ev': [{'a': a, 'rel': r, 'o': o} for a, r, o in events]})

def _worker(args):
    pid, fname, modname, tier, seed, idx, shard, nshards, budget, kw = args
    import importlib
    mod = importlib.import_module(modname)
    import numpy as np
    random.seed('%s/%s/%s/%s' % (pid, seed, idx, shard)); np.random.seed(random.getrandbits(32))
    c = Ctx(pid, tier, seed, idx, shard, nshards, budget)
    try:
        getattr(mod, fname)(c, **kw)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res = {'traces': c.traces, 'skipped': c.skipped, 'notes': c.notes}
        if any(x.filename.startswith(os.path.join(core.REPO, 'pyzx')) for x in tb) or isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError, AssertionError, RecursionError)):
            # the library itself failed on a legal use, or handed back something that cannot be used
            # the way it is documented: judged like any other outcome
            res['crash'] = ('%s in %s: %s' % (type(e).__name__, tb[-1].name, str(e)[:100]), fname, traceback.format_exc())
        else:
            res['error'] = traceback.format_exc()
        return res
    return {'traces': c.traces, 'skipped': c.skipped, 'notes': c.notes}

NPROC = max(2, min(8, os.cpu_count() or 2))

QUICK = 2  # scales the number of random cases (and the time to make them) of the quick tier

class Check:
    module, cfg = 'RewriteTrace.tla', 'RewriteTrace.cfg'
    level = 'model_checking'
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.skipped = 0
        self.failures = []        # (trace, event index, why)
        self.samples = []
        self.notes = {}
        self.extra = {}
        self.assumptions = []
        self.distinct = set()
        self.errors = []

    # ---------------------------------------------------------- generate
    def gen(self, modname, jobs, budget):
        """jobs: [(function name, kwargs)], each sharded over the processes"""
        tasks = []
        for i, (fn, kw) in enumerate(jobs):
            ns = kw.pop('_shards', NPROC)
            b = kw.pop('_budget', budget)
            if self.tier == 'quick':
                b *= QUICK
                if 'n' in kw: kw = dict(kw, n=int(kw['n'] * QUICK + .5))
            for s in range(ns):
                tasks.append((self.pid, fn, modname, self.tier, self.seed, i, s, ns, b, kw))
        out = []
        with mp.get_context('fork').Pool(NPROC, maxtasksperchild=8) as pool:
            for r in pool.imap(_worker, tasks, chunksize=1):
                if 'error' in r: self.errors.append(r['error'])
                if 'crash' in r:
                    self.failures.append(({'site': r['crash'][1], 'desc': r['crash'][2], 'start': None, 'ev': [{'a': 'crash', 'o': None}]}, 1, r['crash'][0]))
                out.extend(r['traces']); self.skipped += r['skipped']
                for k, v in r['notes'].items(): self.notes[k] = self.notes.get(k, 0) + v
        return out

    # ---------------------------------------------------------- validate
    def points_for(self, k, m=2):
        rng = random.Random('points/%s/%d' % (self.seed, k))
        return [[rng.randrange(2, core.P - 1) for _ in range(max(k, 1))] for _ in range(m)]

    @staticmethod
    def arity(o):
        if o['k'] == 'graph': return len(o['g']['inp']) + len(o['g']['out'])
        if o['k'] == 'circ': return 2 * o['c']['n']
        if o['k'] == 'sum': return (len(o['gs'][0]['inp']) + len(o['gs'][0]['out'])) if o['gs'] else 0
        if o['k'] == 'mat': return o['nin'] + o['nout']
        if o['k'] == 'anc': return 2 * o['c']['n']
        if o['k'] == 'prog': return 2 * sum(o['p']['regs'])
        if o['k'] == 'pat': return 2 * o['p']['m'] * o['p']['n']
        if o['k'] == 'proc': return 2 * (len(o['g']['inp']) + len(o['g']['out']))
        if o['k'] == 'hcirc': return 4 * (o['h']['q'] + o['h']['b'])
        if o['k'] in ('adj', 'permio', 'plug'): return Check.arity(o['of'])
        if o['k'] in ('then', 'par'): return Check.arity(o['a']) + Check.arity(o['b'])
        return 0

    def validate(self, traces, shards=None, pure_sample=24):
        if not traces: return
        shards = shards or min(NPROC, max(1, len(traces) // 40))
        pts = {}; points = []
        for t in traces:
            # a claim of difference is refuted by chance agreement at the points, so it is judged at more of them
            k = (max([self.arity(t['start'])] + [self.arity(e['o']) for e in t['ev']]), 6 if any(e['rel'] in ('neq', 'neqx', 'neqnz', 'neqperm') for e in t['ev']) else 2)
            if k not in pts:
                pts[k] = len(points) + 1; points.append(self.points_for(*k))
            t['pts'] = pts[k]
        groups = [traces[j::shards] for j in range(shards)]
        # an untampered sample is re-judged with the TLA+ definitions alone
        small = sorted(traces, key=lambda t: sum(self._size(e['o']) for e in t['ev']) + self._size(t['start']))
        small = [t for t in small if t['ev']]
        samp = small[::max(1, len(small) // max(1, pure_sample))][:pure_sample] if pure_sample else []
        samp = [t for t in samp if self._size(t['start']) + sum(self._size(e['o']) for e in t['ev']) < 160]
        verdicts = self._tlc(groups, points)
        for gi, (fails, st) in enumerate(verdicts):
            for f in fails:
                self.failures.append((groups[gi][f['fail'] - 1], f['at'], f['why']))
            self.states += st['distinct']; self.transitions += max(0, st['generated'] - len(groups[gi]))
        if samp:
            pv = self._tlc([samp], points, pure=True)[0]
            a = sorted((id(samp[f['fail'] - 1]), f['at'], f['why']) for f in pv[0])
            ids = {id(t) for t in samp}
            b = sorted((id(t), at, why) for t, at, why in self.failures if id(t) in ids)
            if a != b:
                d = sorted(set(a) ^ set(b)); t = [t for t in samp if id(t) == d[0][0]][0]
                raise tlc.TLCError('override and TLA+ definition disagree: %r on %s' % ([x[1:] for x in d[:4]], json.dumps(t)[:3000]))
            self.extra['rejudged_without_override'] = self.extra.get('rejudged_without_override', 0) + len(samp)
        self.validated += len(traces)
        for t in traces:
            self.distinct.add(hashlib.md5(json.dumps([t['start'], [e['o'] for e in t['ev']]], sort_keys=True).encode()).hexdigest())
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append(json.loads(json.dumps({k: t[k] for k in ('site', 'desc', 'start', 'ev')})) if self._size(t['start']) < 400
                                else {'site': t['site'], 'desc': t['desc'], 'events': [e['a'] for e in t['ev']]})

    @staticmethod
    def _size(o):
        if o['k'] == 'graph': return o['g']['n'] + len(o['g']['ed'])
        if o['k'] == 'circ': return len(o['c']['gates']) + (1 << max(0, o['c']['n'] - 2))
        if o['k'] == 'sum': return sum(g['n'] + len(g['ed']) for g in o['gs'])
        if o['k'] == 'mat': return len(o['m']) * len(o['m'][0]) // 4
        if o['k'] == 'anc': return len(o['c']['gates'])
        if o['k'] == 'prog': return 4 * len(o['p']['stmts'])
        if o['k'] == 'proc': return 2 * (o['g']['n'] + len(o['g']['ed']))
        if o['k'] == 'hcirc': return sum(len(p['ops']) for p in o['h']['parts']) + (4 ** (o['h']['q'] + o['h']['b'])) // 8
        if o['k'] == 'pat': return 4 * (1 << o['p']['m'] * o['p']['n'])
        if o['k'] in ('adj', 'permio', 'plug'): return Check._size(o['of'])
        if o['k'] in ('then', 'par'): return Check._size(o['a']) + Check._size(o['b'])
        return 1

    def _tlc(self, groups, points, pure=False):
        hs = []
        for j, gr in enumerate(groups):
            f = os.path.join(tlc.scratch(), 'tr_%d_%d.json' % (id(self) % 997, len(os.listdir(tlc.scratch()))))
            with open(f, 'w') as fh:
                json.dump({'traces': [{'start': t['start'], 'ev': t['ev'], 'pts': t['pts']} for t in gr], 'points': points}, fh)
            hs.append((tlc.start(self.module, self.cfg, {'TRACE_FILE': f}, pure=pure), f))
        res = []
        for (h, f), gr in zip(hs, groups):
            out, st = tlc.finish(h)
            os.unlink(f)
            if st['rc'] != 0:
                raise tlc.TLCError('TLC failed (rc %s)\n%s' % (st['rc'], out[-3000:]))
            res.append(([p for p in tlc.printed(out) if 'fail' in p], st))
        return res

    # ------------------------------------------------- other trace specs
    def validate_with(self, module, cfg, cases, shards=None, pure=True):
        """cases: list of dicts with 'site','desc' and whatever the module reads.
        The module prints {fail, at, why} for every rejected case."""
        if not cases: return
        shards = shards or min(NPROC, max(1, len(cases) // 60))
        groups = [cases[j::shards] for j in range(shards)]
        hs = []
        for gr in groups:
            f = os.path.join(tlc.scratch(), 'cs_%d.json' % (len(os.listdir(tlc.scratch()))))
            with open(f, 'w') as fh:
                json.dump({'cases': [{k: v for k, v in t.items() if k not in ('desc',)} for t in gr]}, fh)
            hs.append((tlc.start(module, cfg, {'TRACE_FILE': f}, pure=pure), f))
        for (h, f), gr in zip(hs, groups):
            out, st = tlc.finish(h); os.unlink(f)
            if st['rc'] != 0: raise tlc.TLCError('TLC failed on %s (rc %s)\n%s' % (module, st['rc'], out[-3000:]))
            for p in tlc.printed(out):
                if 'fail' in p: self.failures.append((gr[p['fail'] - 1], p['at'], p['why']))
            self.states += st['distinct']; self.transitions += max(0, st['generated'] - len(gr))
        self.validated += len(cases)
        for t in cases:
            self.distinct.add(hashlib.md5(json.dumps({k: v for k, v in t.items() if k not in ('desc',)}, sort_keys=True, default=str).encode()).hexdigest())
        if len(self.samples) < 6:
            s = json.dumps(cases[len(cases) // 2], default=str)
            self.samples.append(json.loads(s) if len(s) < 6000 else {'site': cases[len(cases) // 2].get('site'), 'truncated': s[:3000]})

    def model(self, module, cfg, **kw):
        """exhaustive model checking of a design-level module"""
        out, st = tlc.run(module, cfg, **kw)
        if st['rc'] != 0:
            raise tlc.TLCError('model %s/%s: rc %s\n%s' % (module, cfg, st['rc'], out[-3000:]))
        self.states += st['distinct']; self.transitions += st['generated']
        self.extra.setdefault('models', []).append({'module': module, 'cfg': cfg, 'distinct_states': st['distinct'], 'states_generated': st['generated']})
        return out

    # ------------------------------------------------------------ report
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p))['findings'] if k.get('status') == 'open' and k['property'] == self.pid]

    def finish(self, rule=''):
        known = self.known(); hit = {}
        viol = []
        first = {}
        for t, at, why in self.failures:      # later failures of a history follow from its first
            if id(t) not in first or at < first[id(t)][1]: first[id(t)] = (t, at, why)
        for t, at, why in first.values():
            name = t['ev'][at - 1]['a'] if at and 'ev' in t and at <= len(t['ev']) else str(at)
            m = None
            for k in known:
                if k['site'] == t['site'] and k.get('action', name) == name and k.get('why', '') in why and k.get('input', '') in t.get('desc', ''):
                    m = k; break
            if m is not None: hit.setdefault(m['id'], []).append(t); continue
            viol.append((t, at, name, why))
        for k in known:
            if k['id'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + '_'): os.unlink(os.path.join(rdir, f))
        if os.environ.get('VERIF_SUMMARY'):
            cnt = {}
            for t, at, name, why in viol: cnt.setdefault((t['site'], name, why[:70]), []).append(t.get('desc', ''))
            for k, v in sorted(cnt.items(), key=lambda x: -len(x[1])): print('SUMMARY', len(v), k, min(v, key=len)[:160])
        seen = {}; seen_all = {}
        viol.sort(key=lambda x: len(x[0].get('desc') or 'z' * 500))
        for t, at, name, why in viol:
            key = (t['site'], name, why); seen_all[key] = seen_all.get(key, 0) + 1
        for t, at, name, why in viol:
            key = (t['site'], name, why)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1 or len(seen) > 12: continue
            f = os.path.join(rdir, '%s_%d.json' % (self.pid, len(seen)))
            with open(f, 'w') as fh:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'site': t['site'], 'desc': t.get('desc', ''),
                           'event': at, 'action': name, 'why': why, 'trace': {k: v for k, v in t.items() if k not in ('desc',)}}, fh, indent=1, default=str)
            print('VIOLATION property=%s replay=%s site=%s action=%s why=%s (x%d) %s' % (self.pid, f, t['site'], name, why, seen_all[key], t.get('desc', '')[:400]))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated,
               'evaluations': self.validated, 'distinct_nontrivial': len(self.distinct), 'rule': rule,
               'samples': self.samples or [{}], 'skipped_unrepresentable': self.skipped, 'by_site': self.notes}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
        print('%s %s: %d histories validated, %d states, %d skipped, %d violations, %.1fs' % (
            self.pid, self.tier, self.validated, self.states, self.skipped, len(viol), time.time() - self.t0))
        if viol: return 1
        if self.errors:
            print(self.errors[0]); print('machinery error'); return 2
        return 0
