"""tryseed.py [--notest] [--nocheck] ID... : apply to /repo, stable tests, demo, check, undo."""
import sys, os, json, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fl = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(c, **k):
    return subprocess.run(c, capture_output=True, text=True, errors='replace', **k)
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    pid = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'diff', '--quiet'])
    out = [i, pid]
    clean = run(['bash', d + '/demo.sh'], cwd='/repo').returncode
    a = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode:
        print(i, 'patch does not apply', a.stderr)
        continue
    try:
        broken = run(['bash', d + '/demo.sh'], cwd='/repo').returncode
        out.append('demo clean=%d patched=%d' % (clean, broken))
        if '--notest' not in fl:
            r = run(['bash', '/opt/vp/test.sh', '/tmp/w/seed.json'])
            ok = set(json.load(open('/tmp/w/seed.json'))['passed'])
            lost = stable - ok
            out.append('tests ok' if not lost else 'TESTS LOST %s' % sorted(lost)[:3])
        if '--nocheck' not in fl:
            t = time.time()
            c = run(['python3-vt', ROOT + '/check.py', pid, 'quick'], cwd=ROOT)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            nf = [l for l in v if 'no-failing' in l]
            out.append('check rc=%d violations=%d (no input: %d) %.0fs' % (c.returncode, len(v), len(nf), time.time() - t))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(' | '.join(out), flush=True)
