"""Loops.  An arbitrary loop is executed once, at an arbitrary iteration index `it`; every location the body may modify is a function of
the index.  Invariants over that trace are derived from the shape of the body's effect (each is inductive by construction, or is checked
for initiation and consecution by the solver) and then assumed at `it`; the exits of that arbitrary iteration are the exits of the loop."""
import z3
from core import *

OK, RET, BRK, CONT, THROW = 'next', 'ret', 'brk', 'cont', 'throw'
EXIT = 'exit'


# ---------------------------------------------------------------- values as leaf lists
def leaves_of(v):
    """(template, leaves) of a cell value, or None if it cannot change across iterations."""
    if isinstance(v, Iter):
        return ('iter', v.cont), [v.idx]
    if isinstance(v, (Struct, Vec, Map)):
        try:
            return ('shape', v.shape), pack(v.shape, v)
        except Unsupported:
            return None
    if z3.is_expr(v):
        return ('expr', None), [v]
    if isinstance(v, LObj):
        return ('lobj', v.cls), [v.ref]
    from exec import Ptr
    if isinstance(v, Ptr) and isinstance(v.target, LObj):
        return ('ptr', v.target.cls), [v.target.ref]
    return None


def rebuild(tpl, ls):
    k, d = tpl
    if k == 'iter':
        return Iter(d, ls[0])
    if k == 'shape':
        return unpack(d, ls)
    if k == 'expr':
        return ls[0]
    if k == 'lobj':
        return LObj(d, ls[0])
    if k == 'ptr':
        from exec import Ptr
        return Ptr(LObj(d, ls[0]))


def same(a, b):
    if a is b:
        return True
    la, lb = leaves_of(a), leaves_of(b)
    if la is None or lb is None:
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind:
            return all(x is y or (not z3.is_expr(x) and x == y) or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))
                       for x, y in ((a.__dict__.get(k), b.__dict__.get(k)) for k in set(a.__dict__) | set(b.__dict__) if k != 'locks'))
        return False
    if len(la[1]) != len(lb[1]):
        return False
    return all(x.eq(y) for x, y in zip(la[1], lb[1]))


BAD_OPS = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT,
           z3.Z3_OP_STORE, z3.Z3_OP_UMINUS, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES)


def pick_patterns(body, j, limit=5, avoid=()):
    """Alternative triggers for a quantifier over j: the smallest applications with j as a direct argument."""
    found = {}
    seen = set()
    stack = [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        if t.num_args() and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
            if any(a.eq(j) for a in t.children()) and not has_op(t, BAD_OPS) and not has_bound(t) and not any(mentions(t, a) for a in avoid):
                found[t.get_id()] = (size(t), t)
        stack.extend(t.children())
    cand = [t for _, t in sorted(found.values(), key=lambda x: x[0])]
    sel = [t for t in cand if z3.is_select(t)]
    fns = [t for t in cand if not z3.is_select(t)]
    old = [t for t in fns if '!' not in t.decl().name()]
    new = [t for t in fns if '!' in t.decl().name()]
    return (old + new)[:limit] + sel[:limit]


def pick_pattern(body, j):
    p = pick_patterns(body, j, 1)
    return p[0] if p else None


def has_bound(t):
    if z3.is_var(t):
        return True
    return any(has_bound(c) for c in t.children()) if z3.is_app(t) else True


def has_op(t, ops):
    if z3.is_app(t):
        if t.decl().kind() in ops:
            return True
        return any(has_op(c, ops) for c in t.children())
    return True


def size(t):
    return 1 + sum(size(c) for c in t.children())


def forall(vs, body, pats=None):
    body = simp(body) if False else body
    if z3.is_true(body):
        return body
    if pats is None:
        pats = []
        if len(vs) == 1:
            pats = pick_patterns(body, vs[0])
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def subst(t, it, j):
    return z3.substitute(t, (it, j))


def consts(ts):
    """The names of the uninterpreted symbols."""
    seen, out, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
    return out


def mentions(t, x):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        if z3.is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())
    return False


class Mod:
    """A modified leaf: cur = f(it) at the start of the arbitrary iteration, init = its value on entry."""

    def __init__(self, key, idx, cur, init):
        self.key, self.idx, self.cur, self.init = key, idx, cur, init


def iterate(ex, st, node, iteration):
    """iteration(s, it) -> [(kind, data, s)] with kind in next/cont (iteration completed), exit, brk, ret, throw.
    -> outcomes of the whole loop, exit/brk mapped to ('exit'|'brk', data, s)."""
    base = st
    it = base.fresh('it', I)
    lv = base.loopvars + (it,)
    fns = {}
    fixed = {}          # (key, leaf) -> its value as a function of the iteration number
    uppers = []         # it never exceeds these

    def start(mods):
        s = base.copy()
        s.loopvars = lv
        s.assume(it >= 0)
        for n in uppers:
            s.pc.append(it <= n)
        ms = []
        for key in sorted(mods, key=str):
            if key[0] == 'cell':
                v0 = base.cells[key[1]]
                tpl, l0 = leaves_of(v0)
                cur = []
                for i, t in enumerate(l0):
                    if (key, i) in fixed:
                        cur.append(fixed[key, i](it))
                        continue
                    f = fns.setdefault((key, i), None)
                    if f is None:
                        f = z3.Function('lp_c%d_%d!%d' % (key[1], i, next(_cnt_())), *([I] * len(lv) + [t.sort()]))
                        fns[(key, i)] = f
                    c = f(*lv)
                    cur.append(c)
                    ms.append(Mod(key, i, c, t))
                v = rebuild(tpl, cur)
                s.cells[key[1]] = v
                if tpl[0] == 'shape':
                    for c in wf_val(tpl[1], v):
                        s.pc.append(c)
                        ex.factids.add(c.get_id())
            else:
                k = key[1]
                if k in base.heap:
                    t = base.heap[k]
                else:
                    t = ex.heap0[k]
                f = fns.get((key, 0))
                if f is None:
                    nm = 'lp_' + '_'.join(str(x) for x in k).replace('::', '.')
                    f = z3.Function('%s!%d' % (nm, next(_cnt_())), *([I] * len(lv) + [t.sort()]))
                    fns[(key, 0)] = f
                c = f(*lv)
                s.heap[k] = c
                ms.append(Mod(key, 0, c, t))
        return s, ms

    # ---- which locations the body modifies
    mods = set()
    ex.quiet += 1
    ncells = set(base.cells)
    try:
        for _ in range(8):
            s0, ms = start(mods)
            hs, cs = dict(s0.heap), dict(s0.cells)
            outs = iteration(s0.copy(), it)
            new = set()
            for kind, data, s in outs:
                if kind not in (OK, CONT):
                    continue
                for k, t in s.heap.items():
                    o = hs.get(k)
                    if o is None:
                        o = ex.heap0.get(k)
                    if o is None or not o.eq(t):
                        if k not in ex.heap0 and k not in base.heap:
                            ex.heap0[k] = z3.Const('H_' + '_'.join(str(x) for x in k).replace('::', '.').replace(' ', ''), t.sort())
                        new.add(('heap', k))
                for c in ncells:
                    if not same(cs[c], s.cells[c]):
                        if leaves_of(base.cells[c]) is None or leaves_of(s.cells[c]) is None:
                            raise Unsupported('a loop that changes a %s' % type(base.cells[c]).__name__, node)
                        new.add(('cell', c))
            if new <= mods:
                break
            mods |= new
        else:
            raise Unsupported('loop effect does not stabilise', node)
        # ---- counters: locals whose value is a function of the iteration number alone
        for _ in range(3):
            s0, ms = start(mods)
            facts = init_facts(ms, it)
            s0.pc += facts
            npc = len(s0.pc)
            outs = iteration(s0.copy(), it)
            f2 = counters(ex, base, ms, it, outs, fixed)
            u2 = upper_bounds(ex, base, s0, npc, ms, it, outs, uppers) if fixed and not f2 else []
            if not f2 and not u2:
                break
            fixed.update(f2)
            uppers += u2
        # ---- derive the invariants
        s0, ms = start(mods)
        facts = init_facts(ms, it)
        s0.pc += facts
        npc = len(s0.pc)
        outs = iteration(s0.copy(), it)
        inv = derive(ex, base, s0, npc, ms, it, outs, node)
    finally:
        ex.quiet -= 1
    # ---- the recorded run: arbitrary iteration under the invariants
    s1, ms = start(mods)
    s1.pc += init_facts(ms, it) + inv
    h1 = [(n, r.get_id(), m) for n, r, m in s1.held]
    res = []
    begin, turn = s1.copy(), ex.C.hooks.get('turn')
    for kind, data, s in iteration(s1, it):
        s.loopvars = base.loopvars
        if kind in (OK, CONT):
            if turn:
                turn(ex, begin, s, node)
            if [(n, r.get_id(), m) for n, r, m in s.held] != h1:
                raise Unsupported('locks held differ at the end of an iteration', node)
            continue
        res.append((kind, data, s))
    ex.unbounded_loops += 1
    ex.loop_log.append((ex.unit, node.get('_line') if node else None, len(inv)))
    return res, it


def _cnt_():
    import core
    return core._cnt


def counters(ex, base, ms, it, outs, fixed):
    """Local integers that every completed iteration changes by the same constant (nothing but their own value matters)."""
    norm = [s for k, _, s in outs if k in (OK, CONT)]
    new = {}
    for m in ms:
        if m.key[0] != 'cell' or m.cur.sort() != I or not norm or isinstance(base.cells[m.key[1]], (Vec, Struct, Map)):
            continue
        ds = []
        for s in norm:
            d = simp(leaves_of(s.cells[m.key[1]])[1][m.idx] - m.cur)
            ds.append(d.as_long() if z3.is_int_value(d) else None)
        if None not in ds and len(set(ds)) == 1:
            new[m.key, m.idx] = lambda i, a=m.init, c=ds[0]: simp(a + c * i)
        elif None in ds:
            # machine arithmetic: i + 1 wraps, unless it is shown not to
            for c in (1, -1):
                f = simp(m.init + c * it)
                if all(ex.prove(s.pc + [m.cur == f], leaves_of(s.cells[m.key[1]])[1][m.idx] == m.cur + c, 1500) for s in norm):
                    new[m.key, m.idx] = lambda i, a=m.init, c=c: simp(a + c * i)
                    break
            else:
                # a walk along the children of a node
                w = first_child_of(m.init)
                if w is not None:
                    from xmlmodel import xkid
                    p, n = w
                    f = lambda i, p=p, n=n: z3.If(i < n, xkid(p, i), z3.IntVal(0))
                    if all(ex.prove(s.pc + [m.cur == f(it)], leaves_of(s.cells[m.key[1]])[1][m.idx] == f(it + 1), 3000) for s in norm):
                        new[m.key, m.idx] = f
    return new


def first_child_of(t):
    """t is the first child of p, which has n children, or the null node -> (p, n)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_app(t.arg(1)) and t.arg(1).decl().name() == 'xkid':
        k = t.arg(1)
        for a in conjuncts(t.arg(0)):
            if a.num_args() == 2 and z3.is_int_value(simp(k.arg(1))) and simp(k.arg(1)).as_long() == 0:
                for x, y in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    if z3.is_int_value(y) and y.as_long() == 0 and x.sort() == I and not z3.is_int_value(x):
                        return k.arg(0), x
    return None


def upper_bounds(ex, base, s0, npc, ms, it, outs, have):
    """Bounds that the guard keeps the iteration number below or away from."""
    curs = [m.cur for m in ms]
    cand = []
    for kind, _, s in outs:
        if kind == EXIT:
            continue
        for c in s.pc[npc:]:
            for a in conjuncts(simp(c)):
                for n in limits(a, it):
                    if not mentions(n, it) and not any(mentions(n, x) for x in curs) and not any(n.eq(x) for x in cand + have):
                        cand.append(n)
    out = []
    for n in cand[:4]:
        if not ex.prove(base.pc, n >= 0, 1500):
            continue
        if all(ex.prove(s.pc + [it <= n], it + 1 <= n, 1500) for k, _, s in outs if k in (OK, CONT)):
            out.append(n)
    return out


def conjuncts(c):
    return [x for y in c.children() for x in conjuncts(y)] if z3.is_and(c) else [c]


def limits(a, it):
    """Terms n with a == (it < n), (it != n), (it <= n - 1) or such."""
    neg = False
    while z3.is_not(a):
        a, neg = a.arg(0), not neg
    if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != I:
        return []
    d = simp(a.arg(0) - a.arg(1))
    r = []
    for sign in (1, -1):
        n = simp(it - sign * d)          # d == sign * (it - n)
        if not mentions(n, it):
            r += [n, simp(n + 1)]
    return r


def init_facts(ms, it):
    out = []
    for m in ms:
        c0 = subst(m.cur, it, z3.IntVal(0))
        out.append(c0 == m.init)
    return out


def derive(ex, base, s0, npc, ms, it, outs, node):
    inv = []
    norm = [o for o in outs if o[0] in (OK, CONT)]
    j = z3.Int('j!%d' % next(_cnt_()))
    rng = z3.And(0 <= j, j < it)
    if not norm:
        # the body never completes an iteration: it = 0
        return [it == 0]
    start_pc = s0.pc[:npc]

    def endval(m, s):
        if m.key[0] == 'heap':
            return s.heap.get(m.key[1], m.cur)
        e = leaves_of(s.cells[m.key[1]])[1][m.idx]
        if e.sort() == B and not e.eq(m.cur):
            # a flag that ends the loop: and-ed (or-ed) to its value, which an iteration that starts knows
            ids = {c.get_id() for c in s.pc[npc:]}
            if m.cur.get_id() in ids:
                return z3.And(m.cur, e)
            if z3.Not(m.cur).get_id() in ids:
                return z3.Or(m.cur, e)
        return e

    paths = []
    for _, _, s in norm:
        new = [c for c in s.pc[npc:] if c.get_id() not in ex.factids]
        paths.append((z3.And(*new) if new else z3.BoolVal(True), s))
    # what every started iteration satisfies (the guard)
    common = None
    for kind, _, s in outs:
        if kind == EXIT:
            continue
        ids = {c.get_id(): c for c in s.pc[npc:]}
        common = ids if common is None else {k: c for k, c in common.items() if k in ids}
    common = list((common or {}).values())
    # what holds of stored values that the loop leaves alone
    old = None
    for _, _, s in norm:
        for c in s.pc[npc:]:
            if c.get_id() in ex.valfacts and z3.is_quantifier(c) and not any(c.eq(x) for x in inv):
                if old is None:
                    old = consts(list(base.pc) + list(base.heap.values()) + list(ex.heap0.values()))
                if consts([c]) <= old:
                    inv.append(c)
    # closed forms of integer leaves (proved by the solver on every path)
    changed = True
    todo = [m for m in ms if m.cur.sort() == I]
    closed = {}
    for m in todo:
        for c in (1, 0, -1):
            ok = True
            for _, s in paths:
                e = endval(m, s)
                d = simp(e - m.cur)
                if z3.is_int_value(d):
                    if d.as_long() != c:
                        ok = False
                        break
                    continue
                f = simp(m.init + c * it)
                if not ex.prove(s.pc + [m.cur == f] + inv, e == m.cur + c, 1500):
                    ok = False
                    break
            if ok:
                f = simp(m.init + c * it)
                closed[id(m)] = c
                inv.append(m.cur == f)
                fj = simp(m.init + c * j)
                inv.append(forall([j], z3.Implies(z3.And(0 <= j, j <= it), subst(m.cur, it, j) == fj), [subst(m.cur, it, j)]))
                break
    # counters inside arrays (at a key that is the same in every iteration)
    cells = const_cells(ex, ms, it, j, paths, endval, inv)
    # what held on every earlier iteration
    conds = simp(z3.Or(*[p for p, _ in paths]))
    if not z3.is_true(conds):
        c = subst(conds, it, j)
        parts = conjuncts(c)
        inner = [x for x in parts if z3.is_quantifier(x) and x.is_forall() and x.num_vars() == 1 and x.var_sort(0) == I]
        for x in inner:
            inv.append(prenex(j, it, x))
        rest = z3.And(*[x for x in parts if not any(x.eq(y) for y in inner)])
        inv.append(forall([j], z3.Implies(rng, rest)))
    # per location
    groups = {}
    for m in ms:
        groups.setdefault((m.key), []).append(m)
    cut = ex.unit in getattr(ex.C, 'loop_cut', ())
    for key, mm in groups.items():
        if cut and all(m.cur.sort().kind() == z3.Z3_ARRAY_SORT and m.key[0] == 'heap' for m in mm):
            continue
        vf = vec_facts(ex, base, mm, it, j, paths, endval)
        inv += vf
        for m in mm:
            if m.cur.sort() == B:
                inv += bool_facts(base, m, it, j, paths, endval)
            elif m.cur.sort() == I and id(m) not in closed:
                inv += int_facts(ex, base, m, it, j, paths, endval)
            elif m.cur.sort().kind() == z3.Z3_ARRAY_SORT and not vf:
                cl = [(x.cur, simp(x.init + closed[id(x)] * it)) for x in todo if id(x) in closed]
                mf = map_facts(ex, base, s0, m, it, j, paths, endval, inv, common, cl)
                if not mf:
                    mf = multi_facts(ex, base, s0, ms, m, it, j, paths, endval, inv, common, cl + cells)
                inv += mf
    # integers that grow together
    loose = [m for m in ms if m.cur.sort() == I and id(m) not in closed]
    for a, b in ((a, b) for i, a in enumerate(loose) for b in loose[i + 1:]):
        if 'cell' in (a.key[0], b.key[0]) and all(ex.prove(s.pc + [x for x in inv if not z3.is_quantifier(x)], endval(a, s) - a.cur == endval(b, s) - b.cur, 1500) for _, s in paths):
            inv.append(a.cur - a.init == b.cur - b.init)
    inv += houdini(ex, base, s0, inv, [s for _, s in paths])
    if cut:
        return inv
    # the last step, explicitly
    prev = simp(it - 1)
    step = []
    for p, s in paths:
        eqs = [subst(m.cur, it, simp(it)) == subst(endval(m, s), it, prev) for m in ms]
        step.append(z3.And(subst(p, it, prev), *eqs))
    if ms:
        inv.append(z3.Implies(it > 0, z3.Or(*step)))
    return inv


def prenex(j, it, q):
    """forall 0 <= j < it: forall k: body  as one quantifier, triggered by the elements both range over."""
    rng = z3.And(0 <= j, j < it)
    if q.num_vars() != 1 or q.var_sort(0) != z3.IntSort():
        return z3.ForAll([j], z3.Implies(rng, q))
    k = z3.Int('k!%d' % next(_cnt_()))
    body = z3.substitute_vars(q.body(), k)
    # the inner index counts from an offset: let it range over the positions themselves
    offs = []

    def go(t):
        if z3.is_select(t) and t.arg(1).sort() == z3.IntSort() and mentions(t.arg(1), k):
            d = simp(t.arg(1) - k)
            if not mentions(d, k) and not any(d.eq(o) for o in offs):
                offs.append(d)
        for c in t.children():
            go(c)
    go(body)
    if len(offs) == 1 and not z3.is_int_value(offs[0]):
        body = simp(z3.substitute(body, (k, k - offs[0])))
    pj, pk = pick_patterns(body, j, 2), pick_patterns(body, k, 2)
    f = z3.Implies(rng, body)
    if pj and pk:
        return z3.ForAll([j, k], f, patterns=[z3.MultiPattern(a, b) for a in pj for b in pk])
    return z3.ForAll([j, k], f)


def houdini(ex, base, s0, inv, ends):
    """The candidate invariants given for the unit that hold initially and are preserved by every path."""
    gen = ex.C.loop_invs.get(ex.unit)
    if gen is None:
        return []
    cand = []
    mk = lambda s: gen(ex, base, s)
    at0, at1 = mk(base), mk(s0)
    ends = [mk(s) for s in ends], ends
    idx = [i for i, f in enumerate(at0) if ex.prove(base.pc, f, 3000, (False,))]
    while idx:
        hyp = inv + [at1[i] for i in idx]
        good = [i for i in idx if all(ex.prove(s.pc + hyp, e[i], 5000, (False,)) for e, s in zip(*ends))]
        if good == idx:
            break
        idx = good
    return [at1[i] for i in idx]


def bool_facts(base, m, it, j, paths, endval):
    out = []
    rng = z3.And(0 <= j, j < it)
    ends = [(p, simp(endval(m, s))) for p, s in paths]
    xs_or = []
    for p, e in ends:
        x = simp(z3.substitute(e, (m.cur, z3.BoolVal(False))))
        y = simp(z3.substitute(e, (m.cur, z3.BoolVal(True))))
        if z3.is_true(y):
            xs_or.append((p, x))
        else:
            xs_or = None
            break
    if xs_or is not None:
        X = z3.Or(*[z3.And(p, x) for p, x in xs_or])
        Xs = simp(X)
        if z3.is_false(Xs):
            return [m.cur == m.init]
        w = base.fresh('w', I)
        out.append(z3.Implies(m.cur, z3.Or(m.init, z3.And(0 <= w, w < it, subst(X, it, w)))))
        out.append(z3.Implies(m.init, m.cur))
        out.append(forall([j], z3.Implies(z3.And(rng, subst(X, it, j)), m.cur)))
        # monotone along the trace
        return out
    xs_and = []
    for p, e in ends:
        x = simp(z3.substitute(e, (m.cur, z3.BoolVal(True))))
        y = simp(z3.substitute(e, (m.cur, z3.BoolVal(False))))
        if not z3.is_false(y):
            return out
        xs_and.append((p, x))
    X = z3.Or(*[z3.And(p, z3.Not(x)) for p, x in xs_and])
    w = base.fresh('w', I)
    out.append(z3.Implies(z3.Not(m.cur), z3.Or(z3.Not(m.init), z3.And(0 <= w, w < it, subst(X, it, w)))))
    out.append(z3.Implies(z3.Not(m.init), z3.Not(m.cur)))
    out.append(forall([j], z3.Implies(z3.And(rng, subst(X, it, j)), z3.Not(m.cur))))
    return out


def int_facts(ex, base, m, it, j, paths, endval):
    """Monotone integers, and last-written values."""
    out = []
    f = lambda t: subst(m.cur, it, t)
    slow = [m.cur >= m.init, m.cur <= m.init + it]
    up = all(ex.prove(s.pc, endval(m, s) >= m.cur, 800) for _, s in paths)
    if all(ex.prove(s.pc + slow, z3.And(endval(m, s) >= m.cur, endval(m, s) <= m.cur + 1), 1500) for _, s in paths):
        # at most one more per iteration
        out += slow
        up = True
    if up:
        out.append(m.cur >= m.init)
        out.append(forall([j], z3.Implies(z3.And(0 <= j, j <= it), f(j) <= m.cur), [f(j)]))
        out.append(forall([j], z3.Implies(z3.And(0 <= j, j <= it), f(j) >= m.init), [f(j)]))
        return out
    # assigned values that do not depend on the old one
    vals = []
    for p, s in paths:
        e = endval(m, s)
        if e.eq(m.cur):
            continue
        if mentions(e, m.cur):
            return out
        vals.append(z3.And(p, m.cur == m.cur) if False else (p, e))
    w = base.fresh('lw', I)
    out.append(z3.Or(m.cur == m.init, z3.And(0 <= w, w < it, z3.Or(*[z3.And(subst(p, it, w), m.cur == subst(e, it, w)) for p, e in vals]))))
    return out


def vec_facts(ex, base, mm, it, j, paths, endval):
    """Vectors appended to: [n, leaf arrays]."""
    out = []
    key = mm[0].key
    # find (n, arrays) groups: a vec-shaped value or heap field leaf 0 with array leaves
    if key[0] == 'cell':
        v = base.cells[key[1]]
        if not isinstance(v, Vec):
            # vectors inside structs
            out2 = []
            if isinstance(v, Struct):
                i = 0
                for f, s in v.shape.fields:
                    k = len(s.leaves())
                    if isinstance(s, SVec):
                        out2 += vec_group(ex, base, mm[i], mm[i + 1:i + k], it, j, paths, endval)
                    i += k
            return out2
        return vec_group(ex, base, mm[0], mm[1:], it, j, paths, endval)
    return out


def vec_group(ex, base, mn, marrs, it, j, paths, endval):
    out = []
    rng = z3.And(0 <= j, j < it)
    appended = []
    for p, s in paths:
        en = simp(endval(mn, s) - mn.cur)
        if not z3.is_int_value(en):
            return out
        d = en.as_long()
        if d == 0:
            if not all(endval(m, s).eq(m.cur) for m in marrs):
                return out
            appended.append((p, None))
        elif d == 1:
            vals = []
            for m in marrs:
                e = endval(m, s)
                if z3.is_store(e) and e.arg(0).eq(m.cur) and simp(e.arg(1)).eq(simp(mn.cur)):
                    vals.append(e.arg(2))
                else:
                    return out
            appended.append((p, vals))
        else:
            return out
    k = z3.Int('k!%d' % next(_cnt_()))
    nj = subst(mn.cur, it, j)
    # elements present on entry stay
    for m in marrs:
        out.append(forall([k], z3.Implies(z3.And(0 <= k, k < mn.init), z3.Select(m.cur, k) == z3.Select(m.init, k)), [z3.Select(m.cur, k)]))
    if all(v is not None for _, v in appended):
        # one element per iteration
        ds = []
        for p, vals in appended:
            idx = simp(mn.init + j)
            eqs = [z3.Select(m.cur, idx) == subst(v, it, j) for m, v in zip(marrs, vals)]
            ds.append((subst(p, it, j), eqs))
        if len(ds) == 1:
            body = z3.And(*ds[0][1]) if ds[0][1] else z3.BoolVal(True)
        else:
            body = z3.Or(*[z3.And(p, *e) for p, e in ds])
        if marrs:
            idx = simp(mn.init + j)
            if idx.eq(j):
                out.append(forall([j], z3.Implies(rng, body), [z3.Select(m.cur, j) for m in marrs]))
                # also triggered by the source element
                ps = pick_patterns(body, j, 5, [m.cur for m in marrs])
                if ps:
                    out.append(forall([j], z3.Implies(rng, body), ps))
            else:
                out.append(forall([k], z3.Implies(z3.And(mn.init <= k, k < mn.init + it), z3.substitute(body, (j, simp(k - mn.init)))), [z3.Select(m.cur, k) for m in marrs]))
    else:
        src = fresh_fn(base, 'src', [I], I)
        out.append(mn.cur >= mn.init)
        out.append(mn.cur <= mn.init + it)
        out.append(forall([j], z3.Implies(z3.And(0 <= j, j <= it), z3.And(nj <= mn.cur, nj >= mn.init)), [nj]))
        app = []
        for p, vals in appended:
            if vals is None:
                continue
            pj = subst(p, it, j)
            eqs = [z3.Select(m.cur, nj) == subst(v, it, j) for m, v in zip(marrs, vals)]
            out.append(forall([j], z3.Implies(z3.And(rng, pj), z3.And(nj < mn.cur, src(nj) == j, *eqs))))
            sk = src(k)
            app.append(z3.And(subst(p, it, sk), *[z3.Select(m.cur, k) == subst(v, it, sk) for m, v in zip(marrs, vals)]))
        nsk = subst(mn.cur, it, src(k))
        body = z3.Implies(z3.And(mn.init <= k, k < mn.cur), z3.And(0 <= src(k), src(k) < it, nsk == k, z3.Or(*app)))
        out.append(forall([k], body, [z3.Select(marrs[0].cur, k)] if marrs else [src(k)]))
        # order preserving
        k2 = z3.Int('k!%d' % next(_cnt_()))
        out.append(forall([k, k2], z3.Implies(z3.And(mn.init <= k, k < k2, k2 < mn.cur), src(k) < src(k2)), [z3.MultiPattern(src(k), src(k2))]))
    return out


def fresh_fn(base, name, args, res):
    f = z3.Function('%s!%d' % (name, next(_cnt_())), *([I] * len(base.loopvars) + args + [res]))
    return lambda *a: f(*(list(base.loopvars) + list(a)))


def stores(e, cur):
    """[(key, value)] (outermost first) when e is a chain of stores over cur, else None."""
    out = []
    while z3.is_store(e):
        out.append((e.arg(1), e.arg(2)))
        e = e.arg(0)
    if e.eq(cur):
        return out
    return None


def map_facts(ex, base, s0, m, it, j, paths, endval, inv, common, closed=()):
    """Arrays (heap fields, ghost maps): at most one key per iteration."""
    out = []
    dom = m.cur.sort().domain()
    if dom != I:
        return out
    rng = z3.And(0 <= j, j < it)
    key = None
    ups = []
    for p, s in paths:
        e = simp_store(endval(m, s))
        ch = stores(e, m.cur)
        if ch is None:
            return out
        ks = []
        for k, v in ch:
            if not any(k.eq(q) for q, _ in ks):
                ks.append((k, v))
        if len(ks) > 1:
            return out
        if ks:
            if key is None:
                key = ks[0][0]
            elif not key.eq(ks[0][0]):
                return out
            ups.append((p, ks[0][1]))
        else:
            ups.append((p, None))
    if key is None or mentions(key, m.cur):
        return out
    r = z3.Int('r!%d' % next(_cnt_()))
    # consecutive keys k0, k0+1, ...: the array is known exactly
    kc = simp(z3.substitute(key, *closed)) if closed else key
    k0 = simp(kc - it)
    if not mentions(k0, it) and all(v is not None for _, v in ups):
        sel = z3.Select(m.cur, key)
        ok, facts = True, []
        for p, v in ups:
            v2 = z3.substitute(v, (sel, z3.Select(m.init, r)))
            if mentions(v2, m.cur):
                ok = False
            facts.append(z3.Implies(subst(p, it, r - k0), z3.Select(m.cur, r) == subst(v2, it, r - k0)))
        same = [f.arg(1) for f in facts]
        if ok and all(x.eq(same[0]) for x in same):
            facts = [same[0]]
        if ok:
            inr = z3.And(k0 <= r, r < k0 + it)
            out.append(forall([r], z3.If(inr, z3.And(*facts), z3.Select(m.cur, r) == z3.Select(m.init, r)), [z3.Select(m.cur, r)]))
            # the same, from the source element
            body = z3.substitute(z3.And(*facts), (r, k0 + j))
            body = z3.simplify(body) if len(facts) == 1 else body
            ps = pick_patterns(body, j, 5, [m.cur])
            if ps:
                out.append(forall([j], z3.Implies(rng, body), ps))
            return out
    # only keys of earlier iterations differ from entry
    L = fresh_fn(base, 'lastw', [I, I], I)
    l = L(it, r)
    kl = subst(key, it, l)
    alts = []
    for p, v in ups:
        if v is not None:
            alts.append(z3.And(subst(p, it, l), z3.Select(m.cur, r) == subst(v, it, l)))
    out.append(forall([r], z3.Or(z3.Select(m.cur, r) == z3.Select(m.init, r), z3.And(0 <= l, l < it, kl == r, z3.Or(*alts))), [z3.Select(m.cur, r)]))
    # constant value: holds of every key visited, repeated or not
    vs = [v for _, v in ups]
    if all(v is not None for v in vs) and all(v.eq(vs[0]) for v in vs) and not mentions(vs[0], it):
        kj = subst(key, it, j)
        out.append(forall([j], z3.Implies(rng, z3.Select(m.cur, kj) == vs[0])))
        return out
    # monotone boolean: set to true or kept
    if m.cur.sort().range() == B and all(v is None or z3.is_true(v) for v in vs):
        kj = subst(key, it, j)
        for p, v in ups:
            if v is not None:
                out.append(forall([j], z3.Implies(z3.And(rng, subst(p, it, j)), z3.Select(m.cur, kj))))
        return out
    # distinct keys: every visited key is written once, from its value on entry
    i2 = z3.Int('i!%d' % next(_cnt_()))
    kj, ki = subst(key, it, j), subst(key, it, i2)
    dist = ex.prove(s0.pc + list(inv) + [0 <= j, j < i2, i2 <= it] + [subst(c, it, i2) for c in common], kj != ki, 3000)
    if dist:
        cj = z3.Select(subst(m.cur, it, j), kj)
        for p, v in ups:
            val = z3.Select(m.init, kj) if v is None else z3.substitute(subst(v, it, j), (cj, z3.Select(m.init, kj)))
            out.append(forall([j], z3.Implies(z3.And(rng, subst(p, it, j)), z3.Select(m.cur, kj) == val)))
        # this iteration's key is untouched so far (it is a key only if an iteration runs here: implied by distinctness)
        out.append(forall([j], z3.Implies(rng, z3.Select(subst(m.cur, it, j), kj) == z3.Select(m.init, kj))))
        c = z3.And(*common) if common else z3.BoolVal(True)
        out.append(z3.Implies(c, z3.Select(m.cur, key) == z3.Select(m.init, key)))
    return out


def simp_store(e):
    return e


def const_cells(ex, ms, it, j, paths, endval, inv):
    """cur[K] for a key K fixed throughout the loop that the body counts up: its closed form (adds the facts to inv)."""
    out = []
    curs = [m.cur for m in ms]
    for m in ms:
        if m.cur.sort().kind() != z3.Z3_ARRAY_SORT or m.cur.sort().domain() != I or m.cur.sort().range() != I:
            continue
        keys = []
        for _, s in paths:
            ch = stores(endval(m, s), m.cur)
            if ch is None:
                keys = []
                break
            for k, _ in ch:
                if not any(k.eq(q) for q in keys) and not mentions(k, it) and not any(mentions(k, c) for c in curs):
                    keys.append(k)
        if sum(1 for _, s in paths for _ in (stores(endval(m, s), m.cur) or [])) <= len(paths):
            continue       # one key per iteration: the general treatment applies
        for k in keys:
            at = z3.Select(m.cur, k)
            for c in (1, 0):
                if all(ex.prove(s.pc + inv, z3.Select(endval(m, s), k) == at + c, 2000) for _, s in paths):
                    f = simp(z3.Select(m.init, k) + c * it)
                    inv.append(at == f)
                    aj = subst(at, it, j)
                    inv.append(forall([j], z3.Implies(z3.And(0 <= j, j <= it), aj == simp(z3.Select(m.init, k) + c * j)), [aj]))
                    out.append((at, f))
                    break
    return out


def multi_facts(ex, base, s0, ms, m, it, j, paths, endval, inv, common, closed):
    """Arrays written at several keys per iteration, all of them different: the final value at each."""
    if m.cur.sort().domain() != I or len(paths) != 1:
        return []
    p, s = paths[0]
    ch = stores(endval(m, s), m.cur)
    if not ch:
        return []
    curs = [x.cur for x in ms]
    ks = []
    for k, v in ch:
        k, v = simp(z3.substitute(k, *closed)) if closed else k, simp(z3.substitute(v, *closed)) if closed else v
        if not any(k.eq(q) for q, _ in ks):
            ks.append((k, v))
    fixed = [(k, v) for k, v in ks if not mentions(k, it) and not any(mentions(k, c) for c in curs)]
    var = [(k, v) for k, v in ks if not any(k.eq(q) for q, _ in fixed)]
    if any(mentions(k, c) for k, _ in var for c in curs) or any(mentions(v, c) for _, v in var for c in curs) or not var:
        return []
    # keys of different iterations differ, and differ from each other
    i2 = z3.Int('i!%d' % next(_cnt_()))
    goal = []
    for k, _ in var:
        kj = subst(k, it, j)
        goal += [kj != subst(q, it, i2) for q, _ in var]
        goal += [subst(q, it, i2) != subst(k, it, j) for q, _ in var]
        goal += [kj != subst(q, it, j) for q, _ in var if not q.eq(k)]
        goal += [kj != q for q, _ in fixed]
    rng2 = [0 <= j, j < i2, i2 <= it]
    if not ex.prove(s0.pc + list(inv) + rng2, z3.And(*goal), 5000):
        return []
    out = []
    # the whole of `shift + it`, as one variable
    E = shift_of([k for k, _ in var], it)
    r, k1 = z3.Int('r!%d' % next(_cnt_())), z3.Int('k!%d' % next(_cnt_()))
    isf = [r == k for k, _ in fixed]
    mem = [member(k, it, r) for k, _ in var]
    if any(x is None for x in mem):
        L = fresh_fn(base, 'lastw', [I], I)
        l = L(r)
        mem = [z3.And(0 <= l, l < it, z3.Or(*[subst(k, it, l) == r for k, _ in var]))]
    out.append(forall([r], z3.Or(z3.Select(m.cur, r) == z3.Select(m.init, r), *isf, *mem), [z3.Select(m.cur, r)]))
    if E is None:
        for k, v in var:
            out.append(forall([j], z3.Implies(z3.And(0 <= j, j < it, subst(p, it, j)), z3.Select(m.cur, subst(k, it, j)) == subst(v, it, j))))
        return out
    c = simp(E - it)
    pats = {}
    body = []
    for k, v in var:
        kk = z3.substitute(k, (E, k1))
        vv = simp(z3.substitute(z3.substitute(v, (E, k1)), (it, simp(k1 - c))))
        body.append(z3.Select(m.cur, kk) == vv)
        for t in subterms_with(kk, k1):
            pats[t.get_id()] = t
    pk = [t for t in pats.values()]
    out.append(forall([k1], z3.Implies(z3.And(c <= k1, k1 < c + it), z3.And(*body)), pk))
    # the same, from the source element
    src = pick_patterns(z3.And(*[z3.Select(m.cur, subst(k, it, j)) == subst(v, it, j) for k, v in var]), j, 5, curs)
    if src:
        out.append(forall([j], z3.Implies(z3.And(0 <= j, j < it), z3.And(*[z3.Select(m.cur, subst(k, it, j)) == subst(v, it, j) for k, v in var])), src))
    return out


def member(key, it, r):
    """r is the node `key` of some iteration before `it` (a condition on r alone), for keys that are paths in a tree."""
    from xmlmodel import xparent, xindex
    conds = []
    while True:
        if z3.is_app(key) and key.decl().name() == 'xkid':
            p, i = key.arg(0), key.arg(1)
            if not mentions(i, it):
                conds.append(xindex(r) == i)
                key, r = p, xparent(r)
                continue
            c = simp(i - it)
            if mentions(c, it) or mentions(p, it):
                return None
            return z3.And(c <= xindex(r), xindex(r) < c + it, xparent(r) == p, *conds)
        return None


def shift_of(keys, it):
    """The one arithmetic term over `it` that the keys contain, if it has the form c + it."""
    found = {}

    def go(t):
        if t.eq(it) or (z3.is_add(t) and mentions(t, it)):
            found[t.get_id()] = t
            return
        for x in t.children():
            go(x)
    for k in keys:
        go(k)
    if len(found) != 1:
        return None
    E = list(found.values())[0]
    return E if not mentions(simp(E - it), it) else None


def subterms_with(t, v):
    """The smallest applications that have v as an argument."""
    out = []

    def go(x):
        if any(c.eq(v) for c in x.children()):
            out.append(x)
            return
        for c in x.children():
            go(c)
    go(t)
    return out


# ---------------------------------------------------------------- loop forms
def loop(ex, st, node, guard, body, step):
    def iteration(s, it):
        out = []
        for v, s1 in guard(s):
            if isinstance(v, Exc):
                out.append((THROW, v, s1))
                continue
            for side, s2 in ex.fork(s1, ex.truth(ex.rv(v, s1), s1, node)):
                if not side:
                    out.append((EXIT, None, s2))
                    continue
                for kind, data, s3 in body(s2):
                    if kind in (OK, CONT) and step is not None:
                        for w, s4 in step(s3):
                            out.append((THROW, w, s4) if isinstance(w, Exc) else (OK, None, s4))
                    else:
                        out.append((kind, data, s3))
        return out
    res, it = iterate(ex, st, node, iteration)
    return [((OK, None, s) if k in (EXIT, BRK) else (k, d, s)) for k, d, s in res]


def elements(ex, cont, st, node):
    """(length, element lvalue at i) of an iterable lvalue."""
    v = ex.read(cont, st, node)
    if isinstance(v, Vec):
        return v.n, lambda i: LIdx(cont, i)
    if isinstance(v, Map):
        if isinstance(v.shape.v, SStruct) and v.shape.v.name == 'unit':
            return v.n, lambda i: LTemp(z3.Select(v.keys, i))
        return v.n, lambda i: LKey(cont, z3.Select(v.keys, i), True)
    return ex.lib.elements(v, cont, st, node)


def each(ex, st, node, cont, fn):
    res, it = each_raw(ex, st, node, cont, fn)
    return [((OK, None, s) if k in (EXIT, BRK) else (k, d, s)) for k, d, s in res]


def each_raw(ex, st, node, cont, fn):
    n0, _ = elements(ex, cont, st, node)
    if z3.is_int_value(simp(n0)) and simp(n0).as_long() <= 6:
        # a short literal list: unrolled
        acc = [st]
        out = []
        for i in range(simp(n0).as_long()):
            nxt = []
            for s in acc:
                _, el = elements(ex, cont, s, node)
                for k, d, s2 in fn(el(z3.IntVal(i)), s):
                    if k in (OK, CONT):
                        nxt.append(s2)
                    elif k == BRK:
                        out.append((BRK, d, s2))
                    else:
                        out.append((k, d, s2))
            acc = nxt
        return out + [(EXIT, None, s) for s in acc], n0

    def iteration(s, it):
        n, el = elements(ex, cont, s, node)
        if not n.eq(n0) and not simp(n).eq(simp(n0)):
            raise Unsupported('loop changes the container it iterates over', node)
        out = []
        for side, s2 in ex.fork(s, it < n0):
            if not side:
                s2.assume(it == n0)
                out.append((EXIT, None, s2))
            else:
                out += fn(el(it), s2)
        return out
    # it never exceeds the length: inductive since an iteration needs it < n
    res, it = iterate(ex, st, node, lambda s, it: iteration(bound(s, it, n0), it))
    return res, it


def bound(s, it, n):
    s.pc.append(it <= n)
    return s
