"""Reads the results seedtest.sh left in /tmp into tools/seed_results.json (for the table in DESIGN.md)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = V + '/tools/seed_results.json'
R = json.load(open(F)) if os.path.exists(F) else {}
have = set(os.listdir(V + '/seeded'))
for f in glob.glob('/tmp/seed-*.res'):
    i = os.path.basename(f)[5:-4]
    if i not in have:
        continue
    t = open(f).read()
    m = re.search(r'CAUGHT \(harness (.*?):', t) or re.search(r'CAUGHT \((.*)\)', t)
    R.setdefault(i, {}).update(caught=bool(m), harness=m.group(1) if m else '')
R = {k: v for k, v in sorted(R.items()) if k in have}
json.dump(R, open(F, 'w'), indent=1)
print(len(R), 'results;', 'missed:', [k for k, v in R.items() if not v['caught']], 'no result:', sorted(have - set(R)))
