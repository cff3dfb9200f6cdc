"""lists the fix: commits of /repo in known_findings.json (property attribution by keyword table below)"""
import json, subprocess
T = json.load(open('/verif/tools/fixprops.json'))
k = json.load(open('/verif/known_findings.json'))
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, m = l.split(' ', 1)
    if not m.startswith('fix:'): continue
    m = m[5:]
    p = T.get(m)
    if p is None: print('unattributed:', m); continue
    out.append('fixed: property=%s %s %s' % (p, h, m))
k['fixed'] = out
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
