"""Writes the per-property part of DESIGN.md (between the markers) from properties.jsonl, the property modules and the evidence."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(1, '/repo')
NOTES = json.load(open(V + '/tools/design_notes.json'))
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    f = '%s/props/%s.py' % (V, i.lower())
    if not os.path.exists(f):
        out.append('Not claimed: %s\n' % NOTES.get(i, 'no check'))
        continue
    mod = importlib.import_module('props.' + i.lower())
    if i in NOTES:
        out.append(NOTES[i] + '\n')
    out.append('| harness | what is symbolic, and the bounds of the quick run |\n|---|---|')
    for n in mod.names('quick'):
        b = mod.bounds(n, 'quick').replace('|', '\\|').replace('\n', ' ')
        b = re.sub(r'<function (\w+)[^>]*>', r'\1', b)
        out.append('| %s | %s |' % (n, b if len(b) < 420 else b[:417] + '...'))
    for a in getattr(mod, 'ASSUMPTIONS', []):
        out.append('\nAssumed: ' + a)
    out.append('')
d = open(V + '/DESIGN.md').read()
a, b = d.index('<!-- generated -->'), d.index('<!-- end generated -->')
open(V + '/DESIGN.md', 'w').write(d[:a] + '<!-- generated -->\n' + '\n'.join(out) + '\n' + d[b:])
R = json.load(open(V + '/tools/seed_results.json'))
MISSED = NOTES.get('_missed_first', {})
t = ['| change | property | needs | caught by | |', '|---|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    r = R.get(s, {})
    t.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '),
                                       'harness `%s`' % r['harness'] if r.get('caught') else '**not caught**', MISSED.get(s, '')))
d = open(V + '/DESIGN.md').read()
a, b = d.index('<!-- seeds -->'), d.index('<!-- end seeds -->')
open(V + '/DESIGN.md', 'w').write(d[:a] + '<!-- seeds -->\n' + '\n'.join(t) + '\n' + d[b:])
