"""Decide one property: regenerate every obligation it rests on from /repo's current source and discharge them.

usage: check.py PROPERTY          (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: held; exit 1: a VIOLATION line was printed; 2: the check itself could not run."""
import glob, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import multiprocessing as mp
import z3
import frontend
from core import *
from contracts import Contracts, run_unit
import specs
from solve import solve
from props import PROPS

REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
UNIT_BUDGET = 1500 if TIER == 'thorough' else 240       # seconds of solving per unit
FAIL_CAP = 40 if TIER == 'thorough' else 6              # failed obligations examined per unit


def sources():
    return sorted(glob.glob(REPO + '/PTN_Engine/**/*.cpp', recursive=True))


def matches(sel, con, o):
    """Is obligation o of contract con part of the property?"""
    for upat, aspects in sel:
        if not re.fullmatch(upat, con):
            continue
        for a in aspects:
            if a == '*':
                if not (o.props & {'LOCK', 'ORDER'}):
                    return True
            elif a.startswith('!'):
                continue
            elif a in o.props:
                return True
    return False


def wanted(sel, q):
    return any(re.fullmatch(u, q) for u, _ in sel)


class Result:
    pass


def one(job):
    q, i, part, parts = job
    res = dict(unit=q, obls=[], error=None, secs=0.0, reach=None, defined=True, inlined=[], trusted=[])
    con = C.table[q][i]
    ds = [d for d in prog.funcs.get(q, []) if frontend.body_of(d) is not None and (con.match is None or con.match(d))]
    if not ds:
        res['defined'] = False
        return res
    t0 = time.time()
    short = q.replace('ptne::', '')
    try:
        ex = run_unit(prog, C, con, ds[0])
    except Unsupported as e:
        res['error'] = 'outside the verified subset: %s' % e
        return res
    except RecursionError:
        res['error'] = 'too deep'
        return res
    except Exception as e:
        res['error'] = 'verifier: %s %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
        return res
    res['gen'] = time.time() - t0
    res['inlined'], res['trusted'] = sorted(ex.inlined), sorted(ex.trusted)
    allsel = [o for o in ex.obls if matches(PROPS[PID]['units'], short, o)]
    sel = allsel[part::parts]
    fails = 0
    t1 = time.time()
    for o in sel:
        r, dt, be = solve(o, ex.axioms, deep=False)
        rec = dict(name=o.name, line=o.line, file=o.file, aspects=sorted(o.props), backend=be, secs=round(dt, 3), ok=(r == 'unsat'))
        res['obls'].append(rec)
        if r != 'unsat' and (fails < 2 or TIER == 'thorough'):
            # a second, longer look at what the quick portfolio left open
            r, dt, be = solve(o, ex.axioms, budget=15000 if TIER == 'quick' else 90000, deep=True)
            rec.update(backend=be, secs=round(rec['secs'] + dt, 3), ok=(r == 'unsat'))
            if r != 'unsat':
                rec['detail'] = explain(o, ex)
        if r != 'unsat':
            fails += 1
        if fails and (fails >= FAIL_CAP or time.time() - t1 > UNIT_BUDGET):
            break
    res['skipped'] = len(sel) - len(res['obls'])
    # reachability: the assumptions of the unit are not contradictory
    fin = ex.finals[part::parts]
    live = [kind for st, kind in fin if ex.feasible(st, timeout=2000)]
    res['reach'] = dict(paths=len(fin), reachable=len(live), normal=live.count('normal'))
    res['secs'] = time.time() - t0
    return res


def merge(units, jobs, parts):
    out = []
    for u in units:
        rs = [r for j, r in zip(jobs, parts) if j[:2] == u]
        r = dict(rs[0])
        for x in rs[1:]:
            r['obls'] = r['obls'] + x['obls']
            r['error'] = r['error'] or x['error']
            r['skipped'] = r.get('skipped', 0) + x.get('skipped', 0)
            r['inlined'] = sorted(set(r['inlined']) | set(x['inlined']))
            r['trusted'] = sorted(set(r['trusted']) | set(x['trusted']))
            if r['reach'] and x['reach']:
                r['reach'] = {k: r['reach'][k] + x['reach'][k] for k in r['reach']}
        out.append(r)
    return out


def explain(o, ex):
    s = z3.SimpleSolver()
    s.set('timeout', 3000)
    from core import literal_axioms
    s.add(*literal_axioms(), *ex.axioms, *o.pc)
    s.add(z3.Not(o.goal))
    r = s.check()
    return dict(result=str(r), reason=s.reason_unknown() if r == z3.unknown else '', goal=str(o.goal)[:4000])


def replay_dir():
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    return d


def known_findings():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'property=(\S+) obligation=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    global prog, C, PID
    PID = sys.argv[1]
    spec = PROPS[PID]
    t0 = time.time()
    prog = frontend.load(sources())
    C = Contracts(prog)
    specs.setup(C)
    weight = lambda q: specs.WEIGHT.get(q.replace('ptne::', ''), 0)
    units = [(q, i) for q in sorted(C.table) for i, con in enumerate(C.table[q]) if not con.trusted and wanted(spec['units'], q.replace('ptne::', ''))]
    # long units are cut in parts: each part regenerates the obligations and solves every n-th of them
    jobs = [(q, i, p, n) for q, i in units for n in [max(1, weight(q) // 10)] for p in range(n)]
    jobs.sort(key=lambda j: -weight(j[0]))
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        parts = pool.map(one, jobs, chunksize=1)
    results = merge(units, jobs, parts)
    obls = [(r['unit'], o) for r in results for o in r['obls']]
    failed = [(u, o) for u, o in obls if not o['ok']]
    errors = [r for r in results if r['error']]
    vacuous = [r['unit'] for r in results if r['reach'] and r['reach']['paths'] and not r['reach']['reachable']]
    findings = [f for f in known_findings() if f[0] == PID]
    new = [(u, o) for u, o in failed if not any(u.replace('ptne::', '') + '.' + o['name'] == f[1] for f in findings)]
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (PID, f[2]))
    violation = None
    bounded = None
    missing = [r['unit'] for r in results if not r['defined'] and r['unit'].replace('ptne::', '') not in specs.OPTIONAL]
    if new or errors or vacuous or missing:
        import replay
        bounded = replay.search(PID, REPO, SEED, TIER)
    if bounded and bounded.get('failing'):
        violation = write_replay(PID, new, errors, bounded)
        line = 'VIOLATION property=%s replay=%s' % (PID, violation)
    elif new:
        violation = write_replay(PID, new, errors, bounded)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (PID, violation)
    write_evidence(PID, spec, results, obls, failed, errors, vacuous, bounded, violation, time.time() - t0)
    if violation:
        for u, o in new[:10]:
            print('failed obligation: %s.%s (%s:%s)' % (u, o['name'], os.path.basename(o['file'] or '?'), o['line']))
        print(line)
        return 1
    if errors or vacuous or missing:
        for u in missing:
            print('no longer in the source, bounded check only: %s' % u)
        for r in errors:
            print('undecided by proof, bounded check only: %s: %s' % (r['unit'], r['error']))
        if not bounded or not bounded.get('ran'):
            print('the bounded stand-in could not run either: %s' % (bounded or {}).get('error'))
    print('%s: %d of %d obligations discharged over %d functions (%.0f s)%s' % (
        PID, len(obls) - len(failed), len(obls), sum(1 for r in results if r['defined'] and not r['error']), time.time() - t0,
        ', %d functions only by a bounded check' % len(errors) if errors else ''))
    return 0


def write_replay(pid, new, errors, bounded):
    p = os.path.join(replay_dir(), '%s-%d.txt' % (pid, os.getpid()))
    with open(p, 'w') as f:
        f.write('property %s\n' % pid)
        for u, o in new:
            f.write('\nfailed obligation: %s.%s\n  at %s:%s, aspects %s\n' % (u, o['name'], o['file'], o['line'], ','.join(o['aspects'])))
            d = o.get('detail')
            if d:
                f.write('  verifier: %s %s\n  goal: %s\n' % (d['result'], d['reason'], d['goal']))
        for r in errors:
            f.write('\nnot verified: %s: %s\n' % (r['unit'], r['error']))
        if bounded:
            f.write('\nreplay against the real code: %s\n' % json.dumps(bounded, indent=1))
        else:
            f.write('\nno-failing-input-found\n')
    return p


def write_evidence(pid, spec, results, obls, failed, errors, vacuous, bounded, violation, wall):
    be = {}
    for _, o in obls:
        be[o['backend']] = be.get(o['backend'], 0) + 1
    tr = sorted({t for r in results for t in r['trusted']})
    ev = dict(property=pid, tier=TIER, seed=SEED, level='proof', wall_s=round(wall, 1), violations=1 if violation else 0,
              assumptions=specs.ASSUMPTIONS + spec.get('assumes', []),
              coverage=dict(
                  obligations=len(obls), discharged=len(obls) - len(failed),
                  checker_cmd='python3-vt dv/check.py %s' % pid,
                  trusted_base=specs.TRUSTED + tr,
                  functions_under_contract=[dict(function=r['unit'], obligations=len(r['obls']), discharged=sum(o['ok'] for o in r['obls']),
                                                 solver_s=round(sum(o['secs'] for o in r['obls']), 2), paths=(r['reach'] or {}).get('paths'),
                                                 reachable_paths=(r['reach'] or {}).get('reachable'), inlined=r['inlined'])
                                            for r in results if r['defined'] and not r['error']],
                  by_backend=be, solver_s=round(sum(o['secs'] for _, o in obls), 2),
                  not_proved_bounded_only=[dict(function=r['unit'], reason=r['error']) for r in errors],
                  contradictory_assumptions=vacuous,
                  absent_functions=[r['unit'] for r in results if not r['defined']],
                  failed=[dict(obligation=u + '.' + o['name'], line=o['line']) for u, o in failed],
                  bounded_search=bounded))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
