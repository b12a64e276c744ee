"""Contracts: the specification language, their use at calls, and the generation of a unit's obligations."""
import re
import z3
from core import *
from types_ import last, parse
from frontend import body_of, params_of
from exec import Exec, inner, Ptr, OK, RET, BRK, CONT, THROW
from loops import forall, pick_pattern, fresh_fn

T, F = z3.BoolVal(True), z3.BoolVal(False)


class View:
    """Reads of one heap state."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def arrs(self, cls, field):
        sh = self.ex.field_shape(cls, field)
        return sh, self.ex.fieldarrs(self.st, cls, field, sh)

    def f(self, cls, field, ref):
        sh, arrs = self.arrs(cls, field)
        if isinstance(sh, SEnt):
            return self.ex.sub(cls, field, ref)
        return unpack(sh, [z3.Select(a, ref) for a in arrs])

    def g(self, name):
        return self.ex.ghost(self.st, name)

    def gs(self, name, r):
        return z3.Select(self.g(name), r)


class PostView(View):
    """A view that names the arrays it reads, so that quantifiers over them have usable triggers."""

    def __init__(self, ex, st):
        super().__init__(ex, st)
        self.defs, self.memo = [], {}

    def name(self, t):
        if t.sort().kind() != z3.Z3_ARRAY_SORT or z3.is_const(t):
            return t
        t = simp(t)
        if z3.is_const(t) or (z3.is_select(t) and z3.is_const(t.arg(0)) and z3.is_const(t.arg(1))):
            return t
        if t.get_id() not in self.memo:
            n = z3.Const('post!%d' % next(core_cnt()), t.sort())
            self.memo[t.get_id()] = (n, t)
            self.defs.append(n == t)
        return self.memo[t.get_id()][0]

    def f(self, cls, field, ref):
        sh, arrs = self.arrs(cls, field)
        if isinstance(sh, SEnt):
            return self.ex.sub(cls, field, ref)
        if has_bound_const(ref):
            return unpack(sh, [z3.Select(a, ref) for a in arrs])
        return unpack(sh, [self.name(z3.Select(a, ref)) for a in arrs])

    def arrs(self, cls, field):
        sh, arrs = super().arrs(cls, field)
        return sh, [self.name(a) for a in arrs]

    def g(self, name):
        return self.name(super().g(name))


BOUND = re.compile(r'^(k|ij|tk|tj|ti|ri|rj|i|mk|ck|st|aj|di|dj|wj|pj|fr|up|mo|nb|j)!')


def has_bound_const(t):
    """t mentions a constant that a specification quantifies over."""
    seen = [t]
    while seen:
        x = seen.pop()
        if z3.is_const(x) and BOUND.match(x.decl().name()):
            return True
        seen += x.children()
    return False


class Ctx(View):
    """One evaluation of a contract: over the state at a call (apply) or at entry (verify)."""

    def __init__(self, ex, st, this, args, node, mode):
        super().__init__(ex, st.copy())     # pre-state view
        self.new = st                       # the state being transformed
        self.pre = View(ex, self.st)
        self.this, self.args, self.node, self.mode = this, args, node, mode
        self.reqs, self.thr, self.mays, self.touched, self.ens = [], [], [], {}, []
        self.where = {}
        self.splits = []       # terms a skolemised goal is worth splitting on
        self.defs = []
        self.thrmod = set()
        self.retval, self.retshape, self.retasp = None, None, None
        self.evs = []
        self.fresh_ret = None

    # ---- clauses
    def req(self, name, formula, asp='req'):
        self.reqs.append((name, formula, asp))

    def throws(self, cls, cond, asp='throws'):
        """Throws cls exactly when cond (cond over the entry state)."""
        self.thr.append((cls, cond, asp))

    def may_throw(self, cls, cond, asp='throws'):
        self.mays.append((cls, cond, asp))

    def throw_modifies(self, *keys):
        """Fields that may have changed when the function throws."""
        self.thrmod |= set(keys)

    def key(self, cls, field, i):
        return (cls, field, i)

    def set(self, cls, field, ref, val, asp='eff'):
        sh, _ = self.arrs(cls, field)
        for i, (l, t) in enumerate(zip(sh.leaves(), pack(sh, val))):
            k = (cls, field, i)
            self.new.heap[k] = z3.Store(self.ex.heapkey(self.new, k, z3.ArraySort(I, l)), ref, t)
        self.touched[(cls, field)] = asp

    def update(self, cls, field, fn, asp='eff'):
        """Pointwise: the field of every object r becomes fn(r)."""
        sh, _ = self.arrs(cls, field)
        r = z3.Int('up!r')
        vals = pack(sh, fn(r))
        for i, (l, t) in enumerate(zip(sh.leaves(), vals)):
            k = (cls, field, i)
            a = self.new.fresh('upd_' + field, z3.ArraySort(I, l))
            self.define(z3.ForAll([r], z3.Select(a, r) == t, patterns=[z3.Select(a, r)]))
            self.new.heap[k] = a
        self.touched[(cls, field)] = asp

    def gupdate(self, name, fn, asp='eff'):
        s = self.ex.C.ghosts[name]
        if s.kind() == z3.Z3_ARRAY_SORT:
            r = z3.Const('up!r' + str(s.domain()), s.domain())
            a = self.new.fresh('upd_' + name, s)
            self.define(z3.ForAll([r], z3.Select(a, r) == fn(r), patterns=[z3.Select(a, r)]))
        else:
            a = fn()
        self.ex.set_ghost(self.new, name, a)
        self.touched[('ghost', name)] = asp

    def gset(self, name, val, asp='eff'):
        self.ex.set_ghost(self.new, name, val)
        self.touched[('ghost', name)] = asp

    def gset1(self, name, idx, val, asp='eff'):
        self.gset(name, z3.Store(self.ex.ghost(self.new, name), idx, val), asp)

    def modifies(self, cls, field, where=None, asp='frame'):
        """The field may change arbitrarily (at the refs where(r)); ensures clauses say how."""
        sh, _ = self.arrs(cls, field)
        r = z3.Int('mo!r')
        for i, l in enumerate(sh.leaves()):
            k = (cls, field, i)
            old = self.ex.heapkey(self.new, k, z3.ArraySort(I, l))
            a = self.new.fresh('mod_' + field, z3.ArraySort(I, l))
            if where is not None:
                self.define(z3.ForAll([r], z3.Implies(z3.Not(where(r)), z3.Select(a, r) == z3.Select(old, r)), patterns=[z3.Select(a, r)]))
            self.new.heap[k] = a
        if self.mode == 'apply':
            v = unpack(sh, [z3.Select(self.new.heap[(cls, field, i)], r) for i in range(len(sh.leaves()))])
            for c in wf_val(sh, v, 1):
                self.define(forall([r], c))
        self.touched[(cls, field)] = asp
        self.where[(cls, field)] = where or (lambda r: T)

    def gmodifies(self, name, where=None, asp='frame'):
        s = self.ex.C.ghosts[name]
        old = self.ex.ghost(self.new, name)
        a = self.new.fresh('mod_' + name, s)
        if where is not None and s.kind() == z3.Z3_ARRAY_SORT:
            r = z3.Const('mo!r' + str(s.domain()), s.domain())
            self.define(z3.ForAll([r], z3.Implies(z3.Not(where(r)), z3.Select(a, r) == z3.Select(old, r)), patterns=[z3.Select(a, r)]))
        self.ex.set_ghost(self.new, name, a)
        self.touched[('ghost', name)] = asp
        self.where[('ghost', name)] = where or (lambda r: T)

    def define(self, ax):
        self.defs.append(ax)

    def ensures(self, name, fn, asp='ens'):
        """fn(post view) -> formula"""
        self.ens.append((name, fn, asp))

    def ret(self, val, shape=None, asp='ret'):
        self.retval, self.retshape, self.retasp = val, shape, asp

    def ret_any(self, shape):
        """An unconstrained result, constrained by ensures over c.result."""
        self.retshape = shape
        self.fresh_ret = True

    def ex_fresh(self, shape):
        """A throwaway value of a shape, to list the names of the conjuncts that will constrain the result."""
        return State().fresh_val('probe', shape)

    def event(self, fn):
        """Extra work at a call site (side conditions, ghost code): fn(ex, st)."""
        self.evs.append(fn)

    def inverse(self, vec, leaf=0):
        """A position function for a vector whose elements are pairwise different (that must be required)."""
        f = fresh_fn(self.new, 'inv', [I], I)
        j = z3.Int('inv!j')
        a = vec.arrs[leaf]
        self.define(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < vec.n), f(z3.Select(a, j)) == j), patterns=[z3.Select(a, j)]))
        return f


def core_cnt():
    import core
    return core._cnt


class Contract:
    def __init__(self, name, spec, keep_lvalues=False, ctor=False, inv=(), props=(), trusted=False, match=None):
        self.name, self.spec, self.keep_lvalues, self.ctor, self.props = name, spec, keep_lvalues, ctor, props
        self.trusted, self.match = trusted, match

    def apply(self, ex, this, args, st, n):
        C = ex.C
        if this is not None and isinstance(this, z3.ExprRef) and not self.ctor:
            pass
        short = self.name.replace('ptne::', '')
        C.check_call_locks(ex, st, self.name, this, n)
        c = Ctx(ex, st, this, args, n, 'apply')
        self.spec(c)
        ex.calling = st
        for nm, fo, asp in C.call_sites.get((ex.unit, self.name), lambda *a: [])(ex, c.pre, this, args):
            ex.oblige(st, 'at-call.%s.%s' % (short, nm), fo, {asp}, n, 'call')
        for nm, fo, asp in c.reqs:
            ex.oblige(c.st, 'pre.%s.%s' % (short, nm), fo, {asp}, n, 'requires')
        base = c.st
        base.pc = list(base.pc) + [fo for _, fo, _ in c.reqs]
        ex.factids |= {fo.get_id() for _, fo, _ in c.reqs}
        ex.factkeep += [fo for _, fo, _ in c.reqs]
        out = []
        conds = []
        if c.thrmod and (c.thr or c.mays):
            base = base.copy()
            for cls, field in c.thrmod:
                if cls == 'ghost':
                    ex.set_ghost(base, field, base.fresh('thr_' + field, C.ghosts[field]))
                else:
                    for i, l in enumerate(c.arrs(cls, field)[0].leaves()):
                        base.heap[(cls, field, i)] = base.fresh('thr_' + field, z3.ArraySort(I, l))
        for cls, cond, _ in c.thr:
            conds.append(cond)
            s = base.copy()
            if ex.feasible(s, cond):
                s.assume(cond)
                s.assume(*c.defs)
                out.append((Exc(ex.types.simple.get(cls, cls), None, n), s))
        for cls, cond, _ in c.mays:
            s = base.copy()
            if ex.feasible(s, cond):
                s.assume(cond)
                s.assume(*c.defs)
                out.append((Exc(ex.types.simple.get(cls, cls), None, n), s))
        s = c.new
        s.pc = list(base.pc)
        s.assume(*[simp(z3.Not(x)) for x in conds])
        s.assume(*c.defs)
        if conds and not ex.feasible(s):
            return out
        if c.fresh_ret:
            c.result = s.fresh_val('ret_' + last(self.name), c.retshape)
            rv = c.result
        else:
            rv = c.retval if c.retval is not None else VOID
            if isinstance(rv, Vec):
                s.assume(rv.n >= 0, rv.n < 2 ** 60)      # of every vector
        post = View(ex, s)
        for nm, fn, _ in c.ens:
            s.assume(fn(post))
        for e in c.evs:
            e(ex, s)
        for e in C.after_call.get((ex.unit, self.name), ()):
            e(ex, s, rv)
        out.append((rv, s))
        return out


# ---------------------------------------------------------------- verification of one function
class Unit:
    def __init__(self, prog, C, con, decl):
        self.prog, self.C, self.con, self.decl = prog, C, con, decl


def run_unit(prog, C, con, decl):
    """Execute the body of decl against con; -> Exec with its obligations."""
    from exec import Exec
    ex = Exec(prog, C, con.name)
    df = prog.define(decl)
    st = State()
    cls = con.name.rsplit('::', 1)[0]
    is_method = df['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and \
        not is_static(df)
    this = None
    if is_method:
        this = z3.Const('this', I)
        st.assume(this > 0)
        st.assume(z3.Select(ex.ghost(st, 'allocated'), this))
        if ex.types.is_entity(cls):
            st.env['this'] = LObj(cls, this)
            if df['kind'] == 'CXXConstructorDecl':
                st.cons = (this,)
        else:
            raise Unsupported('unit of a value class')
    args = []
    for i, p in enumerate(params_of(df)):
        sh = ex.types.of(p)
        qt = p['type']['qualType']
        isref = qt.rstrip().endswith('&')
        if isinstance(sh, SEnt):
            raise Unsupported('parameter by value of ' + sh.cls)
        if isinstance(sh, SRef) and sh.kind == 'ref' and isref:
            r = st.fresh('arg%d' % i, I)
            st.assume(r > 0)
            args.append((LObj(sh.cls, r), r))
            continue
        v = st.fresh_val('arg%d' % i, sh)
        args.append((ex.newcell(st, v) if isref else v, v))
    st.assume(*C.global_assumptions(ex, View(ex, st)))
    for f in C.entries:
        st.assume(*f(ex, View(ex, st), this, con.name))
    exp = st.copy()
    c = Ctx(ex, exp, this, [v for _, v in args], df, 'verify')
    ex.ctx = c
    if con.keep_lvalues:
        c.args = [a for a, _ in args]
    con.spec(c)
    for nm, fo, asp in c.reqs:
        st.assume(fo)
    pre = View(ex, c.st)
    entry_pc = list(st.pc)
    bind_args = [a for a, _ in args]
    if df['kind'] == 'CXXConstructorDecl':
        ex.depth = 0
        outs = []
        s0 = st
        ctor_out = ex.bind([(VOID, s0)], lambda _, s: construct(ex, cls, df, this, bind_args, s))
        for v, s in ctor_out:
            outs.append((v, s))
    else:
        outs = ex.run_body(df, st.env.get('this'), bind_args, st, df)
    ex.nout = len(outs)
    ex.finals = []
    for v, s in outs:
        fs = s.copy()
        fs.pc += c.defs
        ex.finals.append((fs, 'throw' if isinstance(v, Exc) else 'normal'))
        if isinstance(v, Exc):
            finish_throw(ex, C, con, c, v, s, pre)
        else:
            finish_normal(ex, C, con, c, v, s, pre)
        ex.oblige(s, 'lock.released-at-exit', z3.BoolVal(not s.held), {'ORDER'}, df, 'lockorder')
    ex.entry = entry_pc + c.defs
    ex.ctx = c
    return ex


def is_static(d):
    p = d['_tu'].ids.get(d.get('previousDecl')) or {}
    return 'static' in (d.get('storageClass'), p.get('storageClass'))


def construct(ex, cls, df, this, args, s):
    obj = LObj(cls, this)
    for b in ex.prog.records[cls].get('bases', []):
        bq = ex.types.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
        if bq and ex.prog.fields.get(bq):
            ex.construct_obj_plain(bq, obj, s, df)
    return ex.run_ctor(df, cls, obj, args, s, df)


def fin_obl(ex, s, c, name, goal, asp, node):
    s2 = s.copy()
    s2.pc = s2.pc + c.defs
    o = ex.oblige(s2, name, goal, {asp}, node, 'ensures')
    if o is not None:
        o.splits = c.splits


def changed_fields(ex, s, base):
    out = set()
    for k, t in s.heap.items():
        o = base.heap.get(k)
        if o is None:
            o = ex.heap0.get(k)
        if o is None or not o.eq(t):
            out.add((k[0], k[1]))
    return out


def field_goal(ex, cls, field, sa, sb, where_not=None, exclude=None):
    """The field agrees in the two states for every object allocated on entry -> formula or None if syntactically equal."""
    alloc0 = ex.heap0.get(('ghost', 'allocated', 0))
    if cls == 'ghost':
        sort = ex.C.ghosts[field]
        a, b = ex.ghost(sa, field), ex.ghost(sb, field)
        if a.eq(b):
            return None
        if sort.kind() != z3.Z3_ARRAY_SORT:
            return None if where_not is not None else a == b
        r = z3.Const('fr!%d' % next(core_cnt()), sort.domain())
        g = z3.Select(a, r) == z3.Select(b, r)
        hyp = []
        if sort.domain() == I and field not in ex.C.ghost_total:
            hyp.append(z3.Select(alloc0, r))
        if where_not is not None:
            hyp.append(z3.Not(where_not(r)))
        return z3.Implies(z3.And(*hyp), g) if hyp else g
    sh = ex.field_shape(cls, field)
    a = [ex.heapkey(sa, (cls, field, i), z3.ArraySort(I, l)) for i, l in enumerate(sh.leaves())]
    b = [ex.heapkey(sb, (cls, field, i), z3.ArraySort(I, l)) for i, l in enumerate(sh.leaves())]
    if all(x.eq(y) for x, y in zip(a, b)):
        return None
    r = z3.Const('fr!%d' % next(core_cnt()), I)
    g = veq(sh, unpack(sh, [z3.Select(x, r) for x in a]), unpack(sh, [z3.Select(x, r) for x in b]))
    hyp = [z3.Select(alloc0, r), r > 0]
    if where_not is not None:
        hyp.append(z3.Not(where_not(r)))
    return z3.Implies(z3.And(*hyp), g)


def finish_throw(ex, C, con, c, e, s, pre):
    nm = last(e.cls)
    ok = [cond for cls, cond, _ in c.thr + c.mays if nm == cls or ex.subclass(e.cls, cls)]
    asps = {a for cls, cond, a in c.thr + c.mays if nm == cls or ex.subclass(e.cls, cls)} or {'throws'}
    s2 = s.copy()
    s2.pc = s2.pc + c.defs
    ex.oblige(s2, 'throws.%s.only-when-specified' % nm, z3.Or(*ok) if ok else F, asps, e.node, 'throws')
    for cls, field in sorted(changed_fields(ex, s, c.st)):
        if (cls, field) in C.unobserved or (cls, field) in c.thrmod or (cls, field) in [k for k in c.touched if c.touched[k] == 'any']:
            continue
        g = field_goal(ex, cls, field, s, c.st, where_not=(lambda r: r == c.this) if con.ctor else None)
        if g is not None:
            fin_obl(ex, s, c, 'on-%s.%s-unchanged' % (nm, label(cls, field)), g, 'atomic', e.node)


def label(cls, field):
    return '%s.%s' % (last(cls), field)


def finish_normal(ex, C, con, c, v, s, pre):
    node = ex.prog.define(c.node) if False else c.node
    for cls, cond, asp in c.thr:
        fin_obl(ex, s, c, 'throws.%s.whenever-specified' % cls, z3.Not(cond), asp, node)
    s_def = s
    if c.fresh_ret:
        c.result = ex.rv(v, s)
    elif c.retval is not None:
        v = ex.rv(v, s)
        sh = c.retshape or shape_of(c.retval)
        if isinstance(v, NoVal):
            fin_obl(ex, s, c, 'result', F, c.retasp, node)
        else:
            v = ex.coerce(v, sh, s)
            fin_obl(ex, s, c, 'result', veq(sh, v, c.retval), c.retasp, node)
    keys = changed_fields(ex, s, c.st) | set(c.touched)
    for cls, field in sorted(keys, key=str):
        if (cls, field) in C.unobserved:
            continue
        asp = c.touched.get((cls, field))
        w = c.where.get((cls, field))
        if asp == 'any' and w is None:
            continue
        if w is not None:
            g = field_goal(ex, cls, field, s, c.st, where_not=w)
        else:
            g = field_goal(ex, cls, field, s, c.new)
        if g is None:
            if asp is not None:
                ex.oblige(s, '%s.%s' % ('effect' if asp else 'frame', label(cls, field)), T, {asp or 'frame'}, node)
            continue
        fin_obl(ex, s, c, '%s.%s' % ('effect' if asp else 'frame', label(cls, field)), g, asp or 'frame', node)
    post = PostView(ex, s)
    c.posting = post
    if c.fresh_ret:
        c.result = name_value(post, c.retshape, ex.coerce(c.result, c.retshape, s))
    for nm, fn, asp in c.ens:
        g = fn(post)
        s2 = s.copy()
        s2.pc = s2.pc + post.defs
        fin_obl(ex, s2, c, 'ensures.' + nm, g, asp, node)


def name_value(post, shape, v):
    return unpack(shape, [post.name(t) for t in pack(shape, v)])


# ---------------------------------------------------------------- registry and hooks
class Contracts:
    def __init__(self, prog):
        self.prog = prog
        self.table = {}
        self.ghosts = {'allocated': z3.ArraySort(I, B), 'alive': z3.ArraySort(I, B), 'dyntype': z3.ArraySort(I, I)}
        self.ghost_total = set()
        self.entries = []
        self.fresh_ghosts = {}  # class -> ghosts of an object that does not exist yet
        self.volatile = set()
        self.monitors = {}
        self.wait_ok = {}      # mutex that may be held in a wait -> the functions whose progress ends the wait
        self.unobserved = {('ghost', 'allocated')}
        self.call_sites = {}
        self.after_call = {}
        self.write_hooks = {}
        self.guards = {}
        self.owners = {}
        self.levels = {}
        self.globals = []
        self.loop_invs = {}
        self._locks = {}
        self.hooks = {}
        self.overrides = {}    # (unit, callee) -> the contract that unit uses for the callee

    def add(self, con):
        self.table.setdefault(con.name, []).append(con)
        return con

    def get(self, q, d=None):
        l = self.table.get(q)
        if not l:
            return None
        for c in l:
            if c.match is None or d is None or c.match(d):
                return c
        return None

    def global_assumptions(self, ex, v):
        out = []
        for g in self.globals:
            out += g(ex, v)
        return out

    # ---- locks
    def guard_of(self, cls, field):
        return self.guards.get((cls, field))

    def lock_owner(self, ex, cls, field, ref):
        o = self.owners.get((cls, field))
        return o(ex, ref) if o else ref

    def lock_level(self, name):
        return self.levels.get(name)

    def same_level_ok(self, name):
        return False

    def may_wait_holding(self, m):
        return m in self.wait_ok and all(m not in self.locks_of(f) for f in self.wait_ok[m])

    def check_call_locks(self, ex, st, name, this, n):
        if not st.held:
            return
        ls = self.locks_of(name)
        for (h, ref, m) in st.held:
            for l in sorted(ls):
                if l == 'blocking':
                    ex.oblige(st, 'wait.in-%s.holds-no-lock' % name.split('ptne::')[-1], z3.BoolVal(self.may_wait_holding(h)), {'ORDER'}, n, 'lockorder')
                    continue
                a, b = self.levels.get(h), self.levels.get(l)
                if h == l:
                    ok = False
                else:
                    ok = a is not None and b is not None and a < b
                ex.oblige(st, 'lock.order.%s-before-%s-in-%s' % (h.split('ptne::')[-1], l.split('ptne::')[-1], name.split('ptne::')[-1]),
                          z3.BoolVal(ok), {'ORDER'}, n, 'lockorder')

    def locks_of(self, name, seen=None):
        """Names of the mutexes a function may acquire (and 'blocking' for waits), over its whole call graph, overriders included."""
        if name in self._locks:
            return self._locks[name]
        seen = seen if seen is not None else set()
        if name in seen:
            return set()
        top = not seen
        seen.add(name)
        out = set()
        for d in self.impls(name):
            b = body_of(d)
            if b is None:
                continue
            self.walk_locks(d, out, seen)
        if top:
            self._locks[name] = out
        return out

    def impls(self, name):
        prog = self.prog
        out = [d for d in prog.funcs.get(name, []) if body_of(d) is not None]
        cls, m = name.rsplit('::', 1) if '::' in name else ('', name)
        for q, rec in prog.records.items():
            for b in rec.get('bases', []):
                bn = b['type'].get('desugaredQualType') or b['type']['qualType']
                if last(bn) == last(cls):
                    out += self.impls(q + '::' + m)
        return out

    def walk_locks(self, d, out, seen):
        stack = [d]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict):
                continue
            k = x.get('kind')
            if k == 'CXXConstructExpr' and last(parse(x['type'].get('desugaredQualType') or x['type']['qualType'])[0]) in \
                    ('unique_lock', 'lock_guard', 'scoped_lock', 'shared_lock'):
                for a in inner(x):
                    for mem in find_members(a):
                        out.add(mem)
            if k in ('MemberExpr', 'DeclRefExpr'):
                r = x.get('referencedMemberDecl') or x.get('referencedDecl', {}).get('id')
                dd = x['_tu'].ids.get(r) if r else None
                nm = x.get('name') or x.get('referencedDecl', {}).get('name')
                if dd is not None and dd.get('_qname', '').startswith('ptne') and '(lambda' not in dd['_qname'] and dd['kind'] in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
                    out |= self.locks_of(dd['_qname'], seen)
                elif nm in ('sleep_for', 'sleep_until', 'arrive_and_wait', 'wait', 'wait_for', 'wait_until'):
                    out.add('blocking')
                elif nm == 'join':
                    out.add('blocking')
            if k == 'CXXConstructExpr':
                q = parse(x['type'].get('desugaredQualType') or x['type']['qualType'])[0]
                for cand in (q, 'ptne::' + q):
                    if cand in self.prog.records:
                        out |= self.locks_of(cand + '::' + last(cand), seen)
            for ch in x.get('inner', []):
                stack.append(ch)

    # ---- hooks used by the library model
    def call_function(self, ex, f, vs, st, n):
        """A user callback: a condition (returns bool) or an action (returns)."""
        rt = ex.ty(n)
        out = []
        ex.trusted.add('user callbacks terminate and do not modify the net')
        if rt == 'bool':
            s = st.copy()
            if ex.feasible(s, CondThrows(f)):
                s.assume(CondThrows(f))
                out.append((Exc('user_exception', None, n), s))
            st.assume(z3.Not(CondThrows(f)))
            out.append((Cond(f), st))
            return out
        h = self.hooks.get('call_action')
        if h:
            return h(ex, f, vs, st, n)
        return [(VOID, st)]

    def on_deque(self, ex, lv, op, x, st, n):
        h = self.hooks.get('on_deque')
        if h:
            h(ex, lv, op, x, st, n)

    def notify(self, ex, lv, name, st, n):
        h = self.hooks.get('notify')
        return h(ex, lv, name, st, n) if h else [(VOID, st)]

    def cv_wait(self, ex, lv, name, pred, st, n):
        h = self.hooks.get('cv_wait')
        if h:
            h(ex, lv, name, pred, st, n)

    def duration_by_ref(self, ex, lv, st, n):
        # the duration is read while the lock is released: it must not be shared mutable state
        g = self.guard_of(lv.cls, lv.field)
        ex.oblige(st, 'guard.%s.not-read-while-waiting' % label(lv.cls, lv.field), z3.BoolVal(g is None), {'LOCK'}, n, 'guard')

    def __getattr__(self, name):
        if name in ('spawn', 'thread_assign', 'thread_method', 'stop_token', 'barrier', 'barrier_waiter'):
            h = self.__dict__['hooks'].get(name)
            if h is None:
                def bad(*a):
                    raise Unsupported('concurrency primitive: ' + name)
                return bad
            return h
        raise AttributeError(name)


def find_members(a):
    out = []
    st = [a]
    while st:
        x = st.pop()
        if x.get('kind') == 'MemberExpr':
            dd = x['_tu'].ids.get(x.get('referencedMemberDecl'))
            if dd is not None and dd['kind'] == 'FieldDecl':
                out.append(dd['_record'] + '::' + dd['name'])
                continue
        st += inner(x)
    return out
