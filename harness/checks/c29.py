"""C29: the command line tools write circuits, diagrams and random instances as asked."""
import core, gens, random, os, sys, io, tempfile, hashlib, subprocess, contextlib, shutil
from fractions import Fraction as F
from framework import *
import pyzx as zx
from pyzx import scripts, settings
from pyzx.circuit import gates as G
from pyzx.routing import architecture as A
from pyzx.routing.cnot_mapper import ElimMode
from pyzx.scripts import circuit_router as R
from checks import c09

READERS = {'qasm': c09.read_qasm, 'qc': c09.read_qc, 'quipper': c09.read_quipper}
EXT = {'qasm': ['.qasm', '.qasm', '.openqasm', ''], 'qc': ['.qc', '.tfc', ''], 'quipper': ['.quipper', '.quip', '']}
def snapshot(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs: q = os.path.join(p, f); r[os.path.relpath(q, d)] = hashlib.sha1(open(q, 'rb').read()).hexdigest()
    return r

def command(c, d, argv, real=False):
    """one command line, in a process of its own whose directory is the scratch directory d: (exit status, error)"""
    out = os.path.join(d, '..', 'out%d' % os.getpid())
    if real:
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', HOME=os.path.dirname(d), MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, '-m', 'pyzx'] + argv, cwd=d, env=env, capture_output=True, text=True, timeout=120)
        return p.returncode, (p.stderr.strip().splitlines() or [''])[-1] if p.returncode else ''
    seed = c.rng.randrange(2 ** 32)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.chdir(d); f = open(out, 'w'); err = io.StringIO()
            with contextlib.redirect_stdout(f), contextlib.redirect_stderr(err):
                random.seed(seed); import numpy as np; np.random.seed(seed)
                sys.argv = ['pyzx'] + argv
                try: scripts.main(['pyzx'] + argv)
                except SystemExit as x: code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1; msg = err.getvalue().strip().splitlines(); f.write('\n@@' + (msg[-1] if msg else ''))
            f.close()
        except BaseException as x:
            code = 99
            try:
                with open(out, 'w') as f: f.write('\n@@raised %s: %s' % (type(x).__name__, x))
            except Exception: pass
        os._exit(code)
    _, st = os.waitpid(pid, 0); code = os.waitstatus_to_exitcode(st)
    t = open(out).read() if os.path.exists(out) else ''
    if os.path.exists(out): os.unlink(out)
    return code, t.split('\n@@')[-1][:300] if '\n@@' in t else ''

class Scratch:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='pyzx-cli-'); self.d = os.path.join(self.top, 'w'); os.mkdir(self.d); return self.d
    def __exit__(self, *a): shutil.rmtree(self.top, ignore_errors=True)

def source(rng, lang):
    q = gens.size(rng, 1, 5, 7); k = rng.choice(['T', 'cnotT', 'cliff', 'T', 'opt']); pk = 'T' if lang == 'qc' or rng.random() < .6 else 'any'
    a = gens.rand_circuit(rng, q, gens.size(rng, 0, 25, 70), k, pk)
    if lang == 'qc' or rng.random() < .5: a = a.to_basic_gates()
    if lang != 'qc' and rng.random() < .2: a = gens.rand_circuit(rng, q, rng.randint(0, 6), 'full', 'T'); a.gates = [g for g in a.gates if not isinstance(g, G.FSim)]
    elif rng.random() < .3:
        for _ in range(rng.randint(1, 2)):
            if q > 2: a.gates.insert(rng.randint(0, len(a.gates)), rng.choice([G.Tofolli, G.CCZ])(*rng.sample(range(q), 3)))
    t = {'qasm': lambda: a.to_qasm(rng.choice([2, 2, 3])), 'qc': a.to_qc, 'quipper': a.to_quipper}[lang]()
    return a, t
def files(site, before, after, new, code, want=0, err='', may=()):
    """only the files in new are written, nothing else changes"""
    written = [f for f in after if f not in before or (f in new and after[f] != before[f])]
    for f in new:
        if f in before and f in after and f not in written: written.append(f)
    changed = [f for f in before if f not in after or (f not in new and before[f] != after[f])]
    return dict(a='files', exc='' if code == want else 'exit status %d: %s' % (code, err), written=written, expected=list(new), changed=changed, code=code, want=want)

def opt(c, n, real=0):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        lang = rng.choice(['qasm', 'qasm', 'qc', 'quipper'])
        try:
            a, text = source(rng, lang)
            if len(a.gates) > 40 or max([0] + [len(g.targets) for g in a.gates if isinstance(g, G.ParityPhase)]) > 4: continue
            start = core.cobj(a.to_basic_gates())
        except (NotRepresentable, TypeError): c.skipped += 1; continue
        except Exception as x: c.skipped += 1; continue
        with Scratch() as d:
            src = rng.choice(['a', 'my circuit', 'x.y', 'sub/c']) + rng.choice(EXT[lang])
            if '/' in src: os.mkdir(os.path.join(d, 'sub'))
            if os.path.splitext(src)[1] == '.y': src += '.' + lang
            open(os.path.join(d, src), 'w').write(text); open(os.path.join(d, 'other.txt'), 'w').write('left alone')
            argv = ['opt']; out = lang; g = rng.choice(['', 'full', 'cliff', 'tele']); pp = rng.random() < .3
            if rng.random() < .5: out = rng.choice(['qasm', 'qc', 'quipper']); argv += ['-t', out]
            elif rng.random() < .3: argv += ['-t', 'match']
            dest = os.path.splitext(src)[0] + '.' + out
            if rng.random() < .6: dest = rng.choice(['o', 'sub2/o', 'o.txt', 'b.' + out]); argv += ['-d', dest]
            if '/' in dest: os.makedirs(os.path.join(d, os.path.dirname(dest)), exist_ok=True)
            if g: argv += ['-g', g]
            if pp: argv += ['-p']
            if rng.random() < .2: argv += ['-v']
            rest = argv[1:]; argv = ['opt', src] + rest if rng.random() < .5 else ['opt'] + rest + [src]
            before = snapshot(d); code, err = command(c, d, argv, real=i < real and c.shard == 0); c.note('opt'); after = snapshot(d)
            desc = 'python -m pyzx %s ## %s' % (' '.join(argv), gens.circ_desc(a))
            fine = all(F(x.phase).denominator in (1, 2, 4) for x in a.to_basic_gates().gates if hasattr(x, 'phase'))
            if code and not fine and (out == 'qc' and '.qc description' in err or pp and 'Clifford+T' in err): c.note('refused: the rotation has no word, or is not Clifford+T'); continue
            c.traces.append(dict(site='opt', desc=desc, ev=[files('opt', before, after, [dest], code, 0, err)], own=True))
            if code or dest not in after: continue
            text2 = open(os.path.join(d, dest)).read(); ev = []
            try:
                try: o = READERS[out](text2)
                except c09.Unreadable as x: o = bad('the output is not in the language: %s' % x)
                ev.append(('output', 'prop', o))
                ok, r = call({'qasm': zx.Circuit.from_qasm, 'qc': zx.Circuit.from_qc, 'quipper': zx.Circuit.from_quipper}[out], text2)
                o = export_result(core.cobj, r) if ok else bad(r); ev.append(('output, read back', 'prop', o))
                ev.append(('T gates', 'tcount', o)); c.add('opt', start, ev, desc + ' ## ' + repr(text2[:600]))
            except NotRepresentable: c.skipped += 1

def tikz(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        lang = rng.choice(['qasm', 'qc', 'quipper'])
        try: a, text = source(rng, lang); start = core.cobj(a)
        except Exception: c.skipped += 1; continue
        with Scratch() as d:
            src = 'a' + rng.choice(EXT[lang]); open(os.path.join(d, src), 'w').write(text); argv = ['tikz', src]; dest = 'a.tikz'
            if rng.random() < .5: dest = rng.choice(['b.tikz', 'out']); argv.append(dest)
            before = snapshot(d); code, err = command(c, d, argv); c.note('tikz'); after = snapshot(d); desc = 'python -m pyzx %s ## %s' % (' '.join(argv), gens.circ_desc(a))
            c.traces.append(dict(site='tikz', desc=desc, ev=[files('tikz', before, after, [dest], code, 0, err)], own=True))
            if code or dest not in after: continue
            def f():
                g = zx.Graph.from_tikz(open(os.path.join(d, dest)).read()); vs = [v for v in g.vertices() if g.type(v) == 0]
                mid = sorted(g.row(v) for v in g.vertices())
                for how in (g.set_inputs, g.set_outputs): how(())
                ends = sorted(vs, key=lambda v: (-float(g.qubit(v)) if False else float(g.qubit(v)), float(g.row(v))))
                g.set_inputs(tuple(ends[0::2])); g.set_outputs(tuple(ends[1::2])); return core.gobj(g)
            try: ok, o = call(f); c.add('tikz', start, [('tikz', 'prop', o if ok else bad(o))], desc)
            except NotRepresentable: c.skipped += 1

def generators(c, n, real=0):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        with Scratch() as d:
            k = rng.choice(['cnots', 'phasepoly']); qs = rng.sample([2, 3, 4, 6], rng.randint(1, 2)); m = rng.randint(1, 2)
            ks = rng.sample([0, 1, 2, 3, 5], rng.randint(1, 2)) if k == 'phasepoly' else rng.sample([0, 1, 4, 9], rng.randint(1, 2))
            argv = [k, 'out', '-q'] + list(map(str, qs)) + (['-m', str(m)] if m > 1 or rng.random() < .5 else []) + ['-d' if k == 'cnots' else '-p'] + list(map(str, ks))
            if k == 'cnots' and rng.random() < .1: argv = argv[:-1 - len(ks)]     # the number of gates is required
            if k == 'cnots' and '-d' not in argv: exp = []
            else: exp = ['out/%dqubits/%s/Original%d.qasm' % (q, x if k == 'cnots' else '%dgadgets' % x, j) for q in qs for x in ks for j in range(m)]
            before = snapshot(d); code, err = command(c, d, argv, real=i < real and c.shard == 1); c.note(k); after = snapshot(d)
            ev = [files(k, before, after, exp, code, 0 if exp else 2, err)]
            for f in exp:
                if f not in after: continue
                q = int(f.split('/')[1][:-6]); x = int(f.split('/')[2].replace('gadgets', ''))
                ok, r = call(zx.Circuit.from_qasm_file, os.path.join(d, f))
                try: gs = core.circ_rec(r)['gates'] if ok else []
                except NotRepresentable: gs = []; ok = False; r = 'an unexpected angle'
                if ok and r.qubits != q: ok = False; r = 'another number of qubits'
                if k == 'cnots': ev.append(dict(a='CNOT_HAD_PHASE_circuit', exc='' if ok else r, n=q, depth=x, had=0, t=0, clifford=False, gates=gs))
                else: ev.append(dict(a='phase_poly_from_gadgets', exc='' if ok else r, n=q, k=x, gates=gs))
            c.traces.append(dict(site=k, desc='python -m pyzx ' + ' '.join(argv), ev=ev, own=True))

def dispatch(c):
    if c.shard: return
    rng = c.rng
    for argv, want in [(['nonsense'], 1), ([], 1), (['optimise', 'a.qasm'], 1), (['opt', 'missing.qasm'], 0), (['tikz', 'missing.qasm'], 0), (['tikz'], 0), (['opt', '--help'], 0), (['opt'], 2), (['opt', 'a.qasm', '-t', 'nonsense'], 0), (['opt', 'b.qsim'], 0)]:
        with Scratch() as d:
            open(os.path.join(d, 'a.qasm'), 'w').write(zx.Circuit(2).to_qasm()); open(os.path.join(d, 'b.qsim'), 'w').write('2\n0 h 0\n')
            before = snapshot(d); code, err = command(c, d, argv); c.note('dispatch')
            c.traces.append(dict(site='dispatch', desc='python -m pyzx ' + ' '.join(argv), ev=[files('dispatch', before, snapshot(d), [], code, want, err)], own=True))
    # the router
    with Scratch() as d:
        cc = zx.Circuit(4)
        for a, b in [(0, 2), (1, 3), (3, 0)]: cc.add_gate('CNOT', a, b)
        open(os.path.join(d, 'a.qasm'), 'w').write(cc.to_qasm()); argv = ['router', 'a.qasm', '-a', 'square', '-q', '4', '--destination', 'out']
        code, err = command(c, d, argv); fs = [f for f in snapshot(d) if f.startswith('out')]
        c.traces.append(dict(site='router', desc='python -m pyzx ' + ' '.join(argv), ev=[dict(a='router', exc='' if code == 0 and fs else 'no routed circuit: exit status %d: %s' % (code, err))], own=True))

def mapper(c, n):
    rng = c.rng
    for i in range(n):
        if not c.more(): break
        with Scratch() as d:
            name, kw = rng.choice([('square', dict(n_qubits=4)), ('line', dict(n_qubits=rng.randint(2, 5))), ('circle', dict(n_qubits=rng.randint(3, 5))), ('fully_connected', dict(n_qubits=rng.randint(2, 5)))])
            ok, a = call(lambda: A.create_architecture(name, **kw))
            if not ok: continue
            q = a.n_qubits; circ = zx.Circuit(q)
            for _ in range(rng.randint(0, 15)): circ.add_gate('CNOT', *rng.sample(range(q), 2))
            src, dest = os.path.join(d, 'a.qasm'), os.path.join(d, 'b.qasm'); open(src, 'w').write(circ.to_qasm()); mode = rng.choice([ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE])
            ok, r = call(R.map_cnot_circuit, src, a, mode=mode, dest_file=dest); c.note('map_cnot_circuit')
            desc = 'map_cnot_circuit(%s, %s) ## %s' % (name, mode, gens.circ_desc(circ)); ev = []
            ok2, f = call(zx.Circuit.from_qasm_file, dest) if ok else (False, r)
            ev.append(('returned', 'eq', export_result(core.cobj, r) if ok else bad(r)))
            if ok: ev.append(('written', 'eq', export_result(core.cobj, f) if ok2 else bad(f)))
            c.add('map_cnot_circuit', core.cobj(circ), ev, desc)
            if ok2 and mode == ElimMode.STEINER_MODE:
                edges = [[a.vertex2qubit(x) + 1 for x in a.graph.edge_st(e)] for e in a.graph.edges()]
                c.traces.append(dict(site='map_cnot_circuit', desc=desc, own=True, ev=[dict(a='routed', exc='', edges=edges, gates=core.circ_rec(f)['gates'])]))

def main(chk):
    q = chk.tier == 'quick'; r = 2 if q else 10
    t = chk.gen('checks.c29', [('opt', dict(n=45 if q else 1500, real=r)), ('tikz', dict(n=10 if q else 300)), ('generators', dict(n=8 if q else 200, real=r)), ('dispatch', {}), ('mapper', dict(n=15 if q else 300))], 12 if q else 250)
    chk.validate([x for x in t if 'own' not in x])
    chk.validate_with('GenTrace.tla', 'GenTrace.cfg', [x for x in t if 'own' in x])
    return chk.finish('a case is non-trivial when it is not identical to another')
