"""Verify one harness entry: worker.py IR ENTRY CFG.json OUT.json"""
import sys, os, json, time, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ll, sym, loops
import resource


MOD = {}


def run(irfile, entry, cfg):
    t0 = time.time()
    m = MOD.get(irfile)
    if m is None:
        m = MOD[irfile] = ll.parse_module(open(irfile).read())
    c = dict(cfg)
    cuts = c.pop('cuts', None)
    c['cuts'] = [loops.Cut(x['pat'], x.get('invs', ()), x.get('auto', True)) for x in cuts] if cuts else []
    lem = c.pop('lemmas_mod', None)
    if lem:
        import importlib
        c['lemmas'] = importlib.import_module(lem).LEMMAS
    E = sym.Engine(m, c)
    err = None
    try:
        E.run_entry(entry)
    except (sym.Unsupported, sym.Budget, sym.MergeFail) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        err = 'internal: ' + traceback.format_exc()[-600:]
    obls = []
    for o in E.obls.values():
        obls.append(dict(label=o.label, n=o.n, proved=o.proved, status=o.status, solvers=o.solvers, cex=o.cex,
                         replayable=o.replayable, info=o.info))
    fns = sorted({E.dem.get(f, f) for f in E.entered if 'wordring::' in E.dem.get(f, f).split('(')[0] or re.search(cfg.get('under', r'wordring::'), E.dem.get(f, f).split('(')[0])})
    return dict(entry=entry, error=err, obls=obls, covers=E.covers, functions=fns, stubs=sorted(E.used_stubs), loops=E.loopinfo,
                notes=sorted(E.notes), paths=E.npaths, instructions=E.ninstr, solver_calls=E.nchecks,
                solver_s=round(E.solver_time, 3), wall_s=round(time.time() - t0, 3))


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    irf = sys.argv[1]
    a = sys.argv[2:]
    for entry, cf, out in zip(a[0::3], a[1::3], a[2::3]):
        cfg = json.load(open(cf))
        try:
            r = run(irf, entry, cfg)
        except MemoryError:
            r = dict(entry=entry, error='memory', obls=[], covers={}, functions=[], stubs=[], loops=[], notes=[], paths=0, instructions=0, solver_calls=0, solver_s=0, wall_s=0)
        json.dump(r, open(out + '.tmp', 'w'))
        os.rename(out + '.tmp', out)
