"""Rewrites tools/seedtable.json from the planted bugs' meta.json files."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
old = {e['id']: e for e in json.load(open('tools/seedtable.json'))}
out = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    i = m.split('/')[1]
    d = json.load(open(m))
    out.append(old.get(i) or {'id': i, 'property': d['property'], 'needs': d['needs'], 'caught': d['property']})
json.dump(out, open('tools/seedtable.json', 'w'), indent=1)
