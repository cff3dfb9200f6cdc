"""python3 run.py <property> [--tier quick|thorough] [--seed N]"""
import os, sys
for k, v in (('PYTHONHASHSEED', '0'), ('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('PYTHONDONTWRITEBYTECODE', '1'), ('MPLBACKEND', 'Agg'), ('PYTHONWARNINGS', 'ignore')):
    if os.environ.get(k) != v:
        for a, b in (('PYTHONHASHSEED', '0'), ('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('PYTHONDONTWRITEBYTECODE', '1'), ('MPLBACKEND', 'Agg'), ('PYTHONWARNINGS', 'ignore')): os.environ[a] = b
        os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, traceback, argparse
ap = argparse.ArgumentParser()
ap.add_argument('pid'); ap.add_argument('--tier'); ap.add_argument('--seed')
a = ap.parse_args()
import framework
chk = framework.Check(a.pid, a.tier, a.seed)
try:
    mod = importlib.import_module('checks.' + a.pid.lower())
    rc = mod.main(chk)
except SystemExit: raise
except BaseException:
    traceback.print_exc(); rc = 2
sys.stdout.flush()
sys.exit(rc)
