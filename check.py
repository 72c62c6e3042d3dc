#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]: decide one property on /repo's working tree."""
import sys, os, json, re, subprocess, time, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import props

PY = 'python3-vt'
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
COMMON = ['-std=c++20', '-I' + REPO + '/include', '-I' + ROOT + '/harness', '-include', ROOT + '/harness/vp_pre.h', '-w']


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, 124, '', 'timeout')
        return r


def uname(u):
    return u.get('name', u['src'])


def build_ir(unit, d):
    src = os.path.join(ROOT, 'harness', unit['src'])
    base = os.path.join(d, os.path.basename(unit['src'])[:-4])
    p = sh([CLANG] + COMMON + unit.get('flags', []) + ['-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O0', '-Xclang',
           '-disable-O0-optnone', '-S', '-emit-llvm', src, '-o', base + '.raw.ll'])
    if p.returncode:
        return None, p.stderr[-1500:]
    p = sh([OPT, '-passes=' + unit.get('passes', 'function(mem2reg,simplifycfg)'), '-S', base + '.raw.ll', '-o', base + '.ll'])
    if p.returncode:
        return None, p.stderr[-1500:]
    return base + '.ll', None


def build_native(unit, d, entries):
    src = os.path.join(ROOT, 'harness', unit['src'])
    base = os.path.join(d, uname(unit).replace('.cpp', ''))
    with open(base + '.entries.cpp', 'w') as f:
        f.write('struct entry_t { char const* name; void (*fn)(); };\n')
        for e in entries:
            f.write('extern "C" void %s();\n' % e)
        f.write('entry_t vp_entries[] = {\n')
        for e in entries:
            f.write('{"%s", %s},\n' % (e, e))
        f.write('{nullptr, nullptr}};\n')
    san = unit.get('san', ['-fsanitize=address'])
    cmds = []
    objs = []
    srcs = [(src, ['-DVP_NATIVE']), (os.path.join(ROOT, 'native', 'rt.cpp'), []), (base + '.entries.cpp', [])]
    for s in unit.get('rt', []):
        srcs.append((os.path.join(ROOT, 'native', s), ['-DVP_ROOT="%s"' % ROOT]))
    for s in unit.get('libs', []):
        srcs.append((s.replace('/repo', REPO), None))
    for i, (s, fl) in enumerate(srcs):
        o = '%s.%d.o' % (base, i)
        objs.append(o)
        if fl is None:
            cmds.append([CLANG] + COMMON + [unit.get('lib_opt', '-O0'), '-c', s, '-o', o])
        else:
            cmds.append([CLANG] + COMMON + unit.get('flags', []) + fl + ['-D_GLIBCXX_ASSERTIONS', unit.get('opt', '-O1'), '-g1'] + san + ['-c', s, '-o', o])
    with ThreadPoolExecutor(4) as ex:
        for p in ex.map(lambda c: sh(c), cmds):
            if p.returncode:
                return None, p.stderr[-1500:]
    p = sh([CLANG] + san + objs + ['-o', base + '.native'] + unit.get('ld', []))
    if p.returncode:
        return None, p.stderr[-1500:]
    return base + '.native', None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = decide(pid, tier, seed, P, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, P, d, t0):
    thorough = tier == 'thorough'
    violations = []      # (replay path, nofail, text)
    undis = []
    assumptions = list(props.TRUST) + list(P.get('assumptions', []))
    rdir = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '.*')):
        os.unlink(f)
    known = load_known(pid)
    results = []
    natives = {}
    bounded = []
    jobs = []
    pool = ThreadPoolExecutor(8)
    units = P.get('units', [])
    uniq = {}
    for u in units:
        uniq.setdefault((u['src'], tuple(u.get('flags', []))), u)
    built = dict(zip(uniq, pool.map(lambda u: build_ir(u, d), uniq.values())))
    irs = [built[(u['src'], tuple(u.get('flags', [])))] for u in units]
    nat_f = []
    entry_unit = {}
    for u, (irf, err) in zip(units, irs):
        if irf is None:
            undis.append(dict(unit=u['src'], why='harness does not compile against this tree', detail=err[-400:]))
            sys.stderr.write(err + '\n')
            continue
        text = open(irf).read()
        present = [x for x in re.findall(r'^define .*@(vp_e_\w+)\(', text, re.M)
                   if re.search(u.get('only', ''), x[5:]) and not (u.get('skip') and re.search(u['skip'], x[5:]))]
        u['_entries'] = present
        for e in present:
            entry_unit[e] = u
        nat_f.append((u, pool.submit(build_native, u, d, present)))
        for e in present:
            short = e[5:]
            cfg = dict(P.get('cfg', {}))
            cfg.update(u.get('cfg', {}))
            cfg.update(P.get('entry_cfg', {}).get(short, {}))
            if cfg.get('native_only') or short.startswith('ground_'):
                continue
            if cfg.get('thorough_only') and not thorough:
                continue
            cfg.setdefault('deadline', 240)
            if thorough:
                cfg['timeout'] = cfg.get('timeout', 20000) * 3
                cfg['deadline'] = cfg['deadline'] * 6
            cf = os.path.join(d, e + '.cfg.json')
            json.dump(cfg, open(cf, 'w'))
            jobs.append((cfg.get('weight', 1), e, irf, cf, os.path.join(d, e + '.out.json'), cfg['deadline']))
    jobs.sort(key=lambda j: -j[0])
    # light entries of one unit share a process
    groups = []
    light = {}
    for j in jobs:
        if j[0] < 1:
            light.setdefault(j[2], []).append(j)
        else:
            groups.append([j])
    for js in light.values():
        k = min(8, (len(js) + 5) // 6)
        groups += [js[i::k] for i in range(k)]

    def runjob(js):
        args = []
        for _, e, irf, cf, out, dl in js:
            args += [e, cf, out]
        p = sh([PY, os.path.join(ROOT, 'engine', 'worker.py'), js[0][2]] + args, timeout=sum(j[5] for j in js) + 120)
        r = []
        for _, e, irf, cf, out, dl in js:
            if os.path.exists(out):
                r.append(json.load(open(out)))
            else:
                r.append(dict(entry=e, error='worker ended: ' + (p.stderr or '')[-300:], obls=[], covers={}, functions=[], stubs=[], loops=[], notes=[],
                              paths=0, instructions=0, solver_calls=0, solver_s=0, wall_s=0))
        return r
    rf = [pool.submit(runjob, g) for g in groups]
    # ground obligations (finite tables evaluated completely)
    ground = []
    for g in P.get('ground', []):
        ground += g(REPO, d, thorough)
    for u, f in nat_f:
        exe, err = f.result()
        if exe is None:
            undis.append(dict(unit=u['src'], why='native build failed', detail=err[-400:]))
            sys.stderr.write(err + '\n')
        natives[uname(u)] = exe
    results = [x for f in rf for x in f.result()]

    def nat(e):
        return natives.get(uname(entry_unit[e]))

    def search(e, secs, sd):
        exe = nat(e)
        if not exe:
            return None
        out = os.path.join(rdir, '%s.%s.%d.replay' % (pid, e[5:], sd))
        cfg = P.get('entry_cfg', {}).get(e[5:], {})
        p = sh([exe, 'search', e, str(sd), str(secs), str(1 if e.startswith('vp_e_ground_') else cfg.get('native_iters', 10 ** 9)), out], timeout=secs + 120)
        if p.returncode == 1 and 'FAILED' in p.stdout:
            return ('fail', out, p.stdout.strip())
        if p.returncode != 0:
            return ('error', None, 'exit %d %s' % (p.returncode, (p.stdout + p.stderr)[-300:]))
        return ('ok', None, p.stdout.strip())

    deeps = {}

    def deep(e):
        if e not in deeps:
            deeps[e] = search(e, 25 if not thorough else 120, seed + 1000)
        return deeps[e]

    # bounded native run of every entry, every time
    secs = P.get('native_s', 3) * (10 if thorough else 1)
    ents = [e for e in entry_unit if not P.get('entry_cfg', {}).get(e[5:], {}).get('symbolic_only')]
    found = {}
    gnative = []
    for e, r in zip(ents, pool.map(lambda e: search(e, P.get('entry_cfg', {}).get(e[5:], {}).get('native_s', secs), seed), ents)):
        if r is None:
            continue
        if e.startswith('vp_e_ground_'):
            k = re.search(r'checks=(\d+)', r[2])
            gnative.append((e[5:], int(k.group(1)) if k else 1, r[0] == 'ok'))
        else:
            bounded.append(dict(entry=e[5:], result=r[0], detail=r[2][:300]))
        if r[0] == 'fail':
            found[e] = r
            violations.append((r[1], False, '%s: %s' % (e[5:], r[2])))
        elif r[0] == 'error':
            undis.append(dict(entry=e[5:], why='native run error', detail=r[2]))
    nobl = disch = 0
    back = {}
    fns = set()
    stubs = set()
    notes = set()
    proved_entries = []
    labels = []
    solver_s = 0.0
    lps = []
    covers = {}
    for r in results:
        e = r['entry']
        solver_s += r['solver_s']
        fns.update(r['functions'])
        stubs.update(r['stubs'])
        notes.update(r['notes'])
        lps += [dict(l, entry=e[5:]) for l in r['loops']]
        ok = r['error'] is None
        if r['error']:
            undis.append(dict(entry=e[5:], why=r['error']))
        if not r['obls'] and ok:
            undis.append(dict(entry=e[5:], why='no obligations generated'))
            ok = False
        for c, v in r['covers'].items():
            covers[e[5:] + ':' + c] = v
            if not v:
                undis.append(dict(entry=e[5:], why='cover point never reached (vacuity): ' + c))
        for o in r['obls']:
            nobl += o['n']
            disch += o['proved']
            for k, v in o['solvers'].items():
                back[k] = back.get(k, 0) + v
            if o['label'].startswith('lemma: ') and o['status'] == 'refuted':
                undis.append(dict(entry=e[5:], obligation=o['label'], why='auxiliary lemma of the induction not established on this tree; the bounded runs decide', detail=o['info']))
                ok = False
                labels.append(dict(entry=e[5:], obligation=o['label'], instances=o['n'], discharged=o['proved'], status='open'))
                continue
            labels.append(dict(entry=e[5:], obligation=o['label'], instances=o['n'], discharged=o['proved'], status=o['status']))
            if o['status'] == 'proved':
                continue
            ok = False
            if o['status'] == 'unknown':
                undis.append(dict(entry=e[5:], obligation=o['label'], why='solver gave no answer'))
                continue
            text = '%s: obligation "%s" refuted (%s)' % (e[5:], o['label'], o['info'])
            sys.stderr.write(text + '\n')
            if e in found:
                continue        # already reported with a concrete failing input
            path = os.path.join(rdir, '%s.%s.%s.replay' % (pid, e[5:], re.sub(r'\W+', '-', o['label'])[:40]))
            if o['replayable'] and nat(e):
                with open(path, 'w') as f:
                    f.write('entry %s\n' % e)
                    for nm, v in o['cex']:
                        f.write('%s %s\n' % (nm, v))
                    f.write('# obligation: %s\n# %s\n' % (o['label'], o['info']))
                p = sh([nat(e), 'replay', e, path], timeout=60)
                if p.returncode == 1:
                    with open(path, 'a') as f:
                        f.write('# native replay: %s\n' % p.stdout.strip())
                    violations.append((path, False, text + ' -- ' + p.stdout.strip()))
                    found[e] = True
                    continue
                # the real code satisfies the harness on that very input
                undis.append(dict(entry=e[5:], obligation=o['label'], why='counterexample did not replay (exit %d): treated as verifier imprecision' % p.returncode, detail=o['info']))
                os.unlink(path)
                s = deep(e)
                if s and s[0] == 'fail':
                    violations.append((s[1], False, '%s: %s' % (e[5:], s[2])))
                    found[e] = True
                continue
            s = deep(e)
            if s and s[0] == 'fail':
                violations.append((s[1], False, '%s: %s (obligation %s)' % (e[5:], s[2], o['label'])))
                found[e] = True
                continue
            if P.get('native_complete'):
                undis.append(dict(entry=e[5:], obligation=o['label'], why='refuted under the assumed contracts only; the native evaluation of the real code agrees with the specification', detail=o['info']))
                continue
            with open(path, 'w') as f:
                f.write('entry %s\n# obligation: %s\n# %s\n# verifier output: %s\n' % (e, o['label'], o['info'], json.dumps(o)[:2000]))
            violations.append((path, True, text))
        if ok:
            proved_entries.append(e[5:])
    for name, k, good in gnative:
        nobl += k
        disch += k if good else 0
        back['ground evaluation'] = back.get('ground evaluation', 0) + (k if good else 0)
        labels.append(dict(entry=name, obligation='complete evaluation of a finite domain', instances=k, discharged=k if good else 0, status='proved' if good else 'refuted'))
    for g in ground:
        nobl += g['n']
        disch += g['n'] - g['failed']
        back['ground evaluation'] = back.get('ground evaluation', 0) + g['n'] - g['failed']
        labels.append(dict(entry='ground', obligation=g['label'], instances=g['n'], discharged=g['n'] - g['failed'], status='proved' if not g['failed'] else 'refuted'))
        if g.get('error'):
            undis.append(dict(entry='ground', obligation=g['label'], why=g['error']))
        if g['failed']:
            path = os.path.join(rdir, '%s.ground.%s.replay' % (pid, re.sub(r'\W+', '-', g['label'])[:40]))
            with open(path, 'w') as f:
                f.write('# obligation: %s\n# %s\n' % (g['label'], g.get('detail', '')))
            violations.append((path, bool(g.get('nofail')), 'ground obligation %s: %s' % (g['label'], g.get('detail', ''))))
    # known findings
    final = []
    for path, nf, text in violations:
        k = [x for x in known if re.search(x['match'], text)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
        else:
            final.append((path, nf, text))
    seen = set()
    for path, nf, text in final:
        if text in seen:
            continue
        seen.add(text)
        print(text)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if nf else ''))
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'],
              coverage=dict(functions_under_contract=sorted(fns), obligations=nobl, discharged=disch, by_back_end=back,
                            solver_s=round(solver_s, 2), named_obligations=labels, entries_fully_discharged=proved_entries,
                            undischarged=undis, loops=lps, covers=covers, bounded_stand_in=bounded,
                            checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
                            trusted_base=props.TRUST_BASE + sorted('assumed contract: ' + s for s in stubs) + sorted(notes)),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(final))
    ev['coverage'] = fix_coverage(ev)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('property=%s obligations=%d discharged=%d undischarged-entries=%d functions=%d wall=%.1fs' % (pid, nobl, disch, len(undis), len(fns), time.time() - t0))
    for x in undis:
        print('  not discharged: %s' % json.dumps(x)[:300])
    return 1 if final else 0


def squeeze(name):
    """function name without template arguments and parameters"""
    name = name.replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator()', 'operator_call').replace('operator->', 'operator_arrow')
    out, depth = [], 0
    for ch in name:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif not depth:
            out.append(ch)
    return ''.join(out).split('(')[0].split(' ')[-1]


def fix_coverage(ev):
    c = ev['coverage']
    fs = [squeeze(f) for f in c['functions_under_contract']]
    c['function_instances'] = len(fs)
    c['functions_under_contract'] = sorted({f for f in fs if f.startswith('wordring::')})
    c['trusted_base'] = [x[:300] for x in c['trusted_base']]
    return c


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                x = json.loads(line)
                if x.get('property') == pid and x.get('status') == 'known':
                    r.append(x)
    return r


if __name__ == '__main__':
    main()
