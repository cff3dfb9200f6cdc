"""Running TLC on the specification in /verif/spec.

TLC is run with an operator override (spec/java/zx/Overrides.java, compiled on
demand into a scratch directory) for the two numerically heavy operators.  The
TLA+ definitions stay the reference: pure=True runs without the override."""
import os, json, subprocess, tempfile, time, shutil, re, atexit
from core import SPEC

TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
JARS = TLAJAR + ':/opt/veriftools/tla/CommunityModules-deps.jar'
_scratch = None

class TLCError(Exception): pass

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='zxverif_')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

_classes = None
def classes():
    global _classes
    if _classes is None:
        d = os.path.join(scratch(), 'classes'); os.makedirs(d)
        subprocess.run(['javac', '-nowarn', '-cp', TLAJAR, '-d', d,
                        os.path.join(SPEC, 'java', 'zx', 'Overrides.java')],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _classes = d
    return _classes

def start(module, cfg, env=None, workers=1, extra=(), xmx='2g', pure=False, jvm=()):
    d = tempfile.mkdtemp(prefix='tlc_', dir=scratch())
    e = dict(os.environ); e.update(env or {}); e.pop('JAVA_TOOL_OPTIONS', None)
    cp = JARS; props = []
    if not pure:
        cp = classes() + ':' + cp
        props = ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:zx.Overrides']
    cmd = (['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss128m', '-Xmx' + xmx] + props + list(jvm) +
           ['-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
            '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)])
    f = open(os.path.join(d, 'out'), 'w+')
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
    return p, f, d

def finish(h, timeout=800):
    p, f, d = h
    to = False
    try: p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); to = True
    f.seek(0); out = f.read(); f.close()
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return out, {'rc': p.returncode, 'timeout': to, 'generated': int(m[-1][0]) if m else 0, 'distinct': int(m[-1][1]) if m else 0}

def run(module, cfg, env=None, timeout=800, **kw):
    return finish(start(module, cfg, env, **kw), timeout)

def printed(out):
    """JSON values printed by PrintT(ToJson(..))"""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"') and len(line) > 2 and line[1] in '{[':
            try: res.append(json.loads(json.loads(line)))
            except Exception: pass
    return res
