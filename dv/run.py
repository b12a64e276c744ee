"""Developer driver: verify the units whose name starts with one of the arguments, in parallel."""
import sys, time, os, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import multiprocessing as mp
from core import *
import frontend
from contracts import *
import specs
from solve import solve


def sources(repo='/repo'):
    return sorted(glob.glob(repo + '/PTN_Engine/**/*.cpp', recursive=True))


def load(repo='/repo'):
    return frontend.load(sources(repo))


def make(prog):
    C = Contracts(prog)
    specs.setup(C)
    return C


def unit(q, i):
    con = C.table[q][i]
    out = []
    ds = [d for d in prog.funcs.get(q, []) if frontend.body_of(d) is not None and (con.match is None or con.match(d))]
    if not ds:
        return [q + ' NO DEFINITION']
    t = time.time()
    try:
        ex = run_unit(prog, C, con, ds[0])
    except Exception as e:
        import traceback
        o = ['%s EXCEPTION %s %s %s' % (q, type(e).__name__, e, getattr(e, 'node', None) and e.node.get('_line'))]
        if '-v' in sys.argv:
            o.append("\n".join(traceback.format_exc().splitlines()[-14:]))
        return o
    tg = time.time() - t
    bad, ts = 0, 0
    for o in ex.obls:
        r, dt, be = solve(o, ex.axioms, deep='-d' in sys.argv)
        ts += dt
        if dt > 2:
            out.append('   slow %s %s %.1f' % (o.name, be, dt))
        if r != 'unsat':
            bad += 1
            out.append('   FAIL %s %s %s %s line %s %.1fs' % (r, q, o.name, o.props, o.line, dt))
    live = sum(1 for st, kind in ex.finals if ex.feasible(st, timeout=2000))
    nn = sum(1 for st, kind in ex.finals if kind == 'normal')
    out.append('%-55s outs %d live %d normal %d obls %d bad %d gen %.1f solve %.1f' % (q, ex.nout, live, nn, len(ex.obls), bad, tg, ts))
    return out


def _u(a):
    return unit(*a)


if __name__ == '__main__':
    t0 = time.time()
    prog = load()
    C = make(prog)
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = [(q, i) for q in sorted(C.table) for i, con in enumerate(C.table[q]) if not con.trusted and any(q.startswith('ptne::' + n) for n in names)]
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(_u, jobs, chunksize=1):
            print('\n'.join(r), flush=True)
    print('total %.1f' % (time.time() - t0))
