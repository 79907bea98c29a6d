"""Writes MANIFEST.json from the property modules that exist and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
if os.path.exists(V + '/tools/not_applicable.json'):
    NA = json.load(open(V + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/props/%s.py' % (V, i.lower())) and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s --tier quick' % i,
            'thorough_cmd': './check.sh %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the real Python source, path feasibility and assertions '
                         'decided by z3 (SMT), counterexamples replayed on the untouched package',
            'level': 'model_checking',
            'level_note': 'Every path and every value within the bounds listed in the evidence file is decided by '
                          'the solver over code instrumented from the current source; outside the bounds nothing is '
                          'claimed. Trusted: the models of Python str/re/XPath evaluation in symex/ (cross-checked on '
                          'every run by replaying sampled path models on the untouched package), z3, lxml and rdflib '
                          'running natively on the concrete structure.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import symex.core, lxml, rdflib"', 'checks': checks,
           'not_applicable': na,
           'notes': 'See DESIGN.md. Exit 2 means the check could not load the code under test.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
