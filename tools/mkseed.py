"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo (C++ body), libs)]"""
import sys, os, json, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git', '-C', '/repo', 'diff', '--quiet'])
    edits = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
    for fn, old, new in edits:
        p = os.path.join('/repo', fn)
        t = open(p, encoding='utf-8', newline='').read()
        k = s.get('occ', 0)
        parts = t.split(old)
        if len(parts) < k + 2:
            sys.exit('%s: text not found in %s' % (s['id'], fn))
        t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w', encoding='utf-8', newline='').write(t)
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    libs = ' '.join(s.get('libs', []))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -include cstdint -Iinclude %s "$d/demo.cpp" %s -o "$t/demo" || exit 2
timeout 120 "$t/demo"
''' % (s.get('flags', ''), libs))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('made', s['id'])
