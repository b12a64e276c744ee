"""Discharging obligations: a small portfolio of sound strategies over the same verification condition."""
import subprocess, tempfile, time, os
import z3
from core import literal_axioms, string_axioms
from exec import new_solver


def _vars2(c):
    """A quantified hypothesis over two or more variables (or containing one)."""
    if z3.is_quantifier(c):
        return c.num_vars() > 1
    if z3.is_and(c):
        return any(_vars2(x) for x in c.children())
    return False


def check(hyps, goal, timeout, ext=True):
    s = new_solver(timeout, ext)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    return str(r), s


def symbols(t, memo):
    k = t.get_id()
    if k in memo:
        return memo[k]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    memo[k] = out
    return out


def relevant(hyps, goal, depth):
    """The hypotheses within `depth` steps of shared symbols from the goal (rare symbols count)."""
    memo = {}
    count = {}
    syms = [symbols(h, memo) for h in hyps]
    for s in syms:
        for x in s:
            count[x] = count.get(x, 0) + 1
    lim = max(12, len(hyps) // 6)
    cur = set(symbols(goal, memo))
    keep = [False] * len(hyps)
    for _ in range(depth):
        new = set(cur)
        for i, s in enumerate(syms):
            if not keep[i] and (not s or any(x in cur and count[x] <= lim for x in s) or (s and s <= cur)):
                keep[i] = True
                new |= s
        if new == cur:
            break
        cur = new
    return [h for i, h in enumerate(hyps) if keep[i]]


def cvc5(hyps, goal, timeout):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, b'(set-logic ALL)\n' + s.to_smt2().encode())
    os.close(fd)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fn], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat', 'unknown') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)


def cli(hyps, goal, timeout, *opts):
    """The same condition through the z3 executable (different preprocessing)."""
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, s.to_smt2().encode())
    os.close(fd)
    try:
        p = subprocess.run(['z3-new', 'smt.mbqi=false', 'smt.auto_config=false', '-t:%d' % timeout, *opts, fn], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat', 'unknown') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)


def by_cases(hyps, goal, terms, timeout):
    """Skolemise the goal and prove it separately for every term the bound variable may equal, and otherwise."""
    if not z3.is_quantifier(goal) or not goal.is_forall():
        return 'unknown'
    vs = [z3.FreshConst(goal.var_sort(i), 'sk') for i in range(goal.num_vars())]
    body = z3.substitute_vars(goal.body(), *reversed(vs))
    done = False
    for v in vs:
        ts = [t for t in terms if t.sort() == v.sort()]
        if not ts:
            continue
        done = True
        for t in ts:
            inst = z3.substitute(body, (v, t))
            if check(hyps, inst, timeout)[0] != 'unsat' and cli(hyps, inst, timeout) != 'unsat':
                return 'unknown'
        rest = hyps + [v != t for t in ts]
        if check(rest, body, timeout)[0] != 'unsat' and cli(rest, body, timeout) != 'unsat':
            return 'unknown'
        break
    return 'unsat' if done else 'unknown'


def solve(o, axioms, budget=20000, deep=True):
    """-> (result, seconds, backend)"""
    t0 = time.time()
    hyps = literal_axioms() + list(axioms) + list(o.pc)
    goals = [o.goal]
    nomulti = [h for h in hyps if not _vars2(h)]
    plan = [('z3/no-ext', lambda: check(hyps, o.goal, 2500, False)[0]),
            ('z3', lambda: check(hyps, o.goal, 2500)[0]),
            ('z3/no-multi', lambda: check(nomulti, o.goal, 4000)[0]),
            *([('z3/cases', lambda: by_cases(hyps, o.goal, o.splits, 3000))] if o.splits else []),
            ('z3/cli', lambda: cli(hyps, o.goal, 3000)),
            ('z3/relevant', lambda: check(relevant(hyps, o.goal, 3), o.goal, 4000)[0])]
    if deep:
        plan += [('z3/cli-seed', lambda: cli(nomulti, o.goal, 5000, 'smt.random_seed=7')), ('z3/long', lambda: check(hyps, o.goal, budget)[0]), ('cvc5', lambda: cvc5(hyps, o.goal, budget))]
    last = 'unknown'
    for name, f in plan:
        r = f()
        if r == 'unsat':
            return 'unsat', time.time() - t0, name
        if r == 'unknown' and time.time() - t0 < 0.5 and name == 'z3/no-ext':
            last = 'unknown'
    return last, time.time() - t0, 'none'
