"""fills design_template.md from design_props.md, known_findings.json and seeded/*/meta.json"""
import json, os, glob
V = '/verif'
t = open(V + '/tools/design_template.md').read()
k = json.load(open(V + '/known_findings.json'))
pp = open(V + '/tools/design_props.md').read()
t = t.replace('DESIGN_PER_PROPERTY', pp)
t = t.replace('FIXED_LIST', '\n'.join('* ' + x for x in k.get('fixed', [])))
t = t.replace('FINDINGS_LIST', '\n'.join('* %s (%s): %s' % (x['id'], x['property'], x['what']) for x in k['findings']) or 'none')
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append('* `%s` (%s): %s. Needs: %s. Result: %s' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, 'caught by the check of ' + m['property'])))
t = t.replace('SEEDED_LIST', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
