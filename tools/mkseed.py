"""Creates a seeded change: mkseed.py SPEC.py   where SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import difflib, json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = '%s/seeded/%s' % (V, s['id'])
    files = {}
    for f, old, new in s['edits']:
        src = files.get(f) or open('/repo/' + f).read()
        assert src.count(old) == 1, (s['id'], f, src.count(old), old)
        files[f] = src.replace(old, new)
    os.makedirs(d, exist_ok=True)
    patch = ''
    for f, new in files.items():
        old = open('/repo/' + f).read()
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(
            old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(s['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                    'PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    orig = 0
    for f, new in files.items():
        a, b = open('/repo/' + f).read().splitlines(), new.splitlines()
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '--abbrev=40', 'HEAD', '--', f], text=True).splitlines()
        for op, i1, i2, _, _ in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
            if op != 'equal':
                orig += sum(1 for k in range(i1, i2) if bl[k].lstrip('^').startswith('f71c118'))
    print(s['id'], 'changes %d original lines' % orig if orig else 'CHANGES NO ORIGINAL LINE')
