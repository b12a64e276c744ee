"""Symbolic execution of clang AST with contracts at calls and inferred or supplied loop invariants."""
import time
import z3
from core import *
from types_ import Types, parse, last, LOCKS
from frontend import body_of, params_of, FUNK, RECK

OK, RET, BRK, CONT, THROW = 'next', 'ret', 'brk', 'cont', 'throw'

TRANSPARENT = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'CXXRewrittenBinaryOperator', 'FullExpr', 'CXXParenListInitExpr_')


def new_solver(timeout, ext=True):
    # quantifiers by E-matching only: model-based instantiation seldom helps and may run for long
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    if not ext:
        s.set('smt.array.extensional', False)
    return s


class Obligation:
    __slots__ = ('unit', 'name', 'props', 'pc', 'goal', 'line', 'file', 'kind', 'abstract', 'splits')

    def __init__(self, unit, name, props, pc, goal, node, kind):
        self.unit, self.name, self.props, self.pc, self.goal, self.kind = unit, name, props, pc, goal, kind
        self.line = node.get('_line') if node else None
        self.file = node.get('_file') if node else None
        self.abstract = False
        self.splits = ()


class Ptr(Value):
    def __init__(self, target):
        self.target = target


def inner(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


class Exec:
    MAXDEPTH = 14

    def __init__(self, prog, contracts, unit_name):
        self.prog = prog
        self.types = Types(prog)
        self.C = contracts
        self.unit = unit_name
        self.obls = []
        self.quiet = 0
        self.depth = 0
        self.heap0 = {}
        self.closures = {}      # Fn id (python int of z3 numeral name) -> Closure
        self.checks = 0
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.unbounded_loops = 0
        self.loop_log = []
        self.axioms = []        # definitional axioms (spec functions) in scope for the unit
        self.nfn = 0
        self.direct = set()
        self.cell_ids = 0
        self.t_feas = 0.0
        self.callstack = []
        self.factids = set()
        self.valfacts = set()    # of them, those that hold of every stored value
        self.factkeep = []
        self.t_prove = 0.0
        import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def oblige(self, st, name, goal, props, node=None, kind='ensures'):
        if self.quiet:
            return
        if z3.is_true(goal):
            # still counted: it was generated and is discharged by the simplifier
            self.obls.append(Obligation(self.unit, name, props, [], z3.BoolVal(True), node, kind))
            return
        o = Obligation(self.unit, name, props, list(st.pc), goal, node, kind)
        self.obls.append(o)
        return o

    def feasible(self, st, extra=None, timeout=100):
        if extra is not None:
            e = simp(extra)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        t = time.time()
        s = new_solver(timeout)
        for c in literal_axioms():
            s.add(c)
        s.add(*st.pc)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.checks += 1
        self.t_feas += time.time() - t
        return r != z3.unsat

    def prove(self, pc, goal, timeout=1500, modes=(False, True)):
        t = time.time()
        for ext in modes:
            s = new_solver(timeout, ext)
            for c in literal_axioms() + self.axioms:
                s.add(c)
            s.add(*pc)
            s.add(z3.Not(goal))
            r = s.check() == z3.unsat
            if r:
                break
        self.t_prove += time.time() - t
        return r

    def fork(self, st, cond):
        """-> [(True, st1), (False, st2)] for the feasible sides."""
        c = simp(cond)
        if z3.is_true(c):
            return [(True, st)]
        if z3.is_false(c):
            return [(False, st)]
        out = []
        f1 = self.feasible(st, c)
        f2 = self.feasible(st, z3.Not(c))
        if f1:
            s1 = st.copy() if f2 else st
            s1.assume(c)
            out.append((True, s1))
        if f2:
            st.assume(simp(z3.Not(c)))
            out.append((False, st))
        return out

    def newcell(self, st, v):
        self.cell_ids += 1
        st.cells[self.cell_ids] = v
        return LCell(self.cell_ids)

    # ------------------------------------------------------------ heap
    def heapkey(self, st, key, sort):
        if key in st.heap:
            return st.heap[key]
        if key not in self.heap0:
            self.heap0[key] = z3.Const('H_' + '_'.join(str(k) for k in key).replace('::', '.').replace(' ', ''), sort)
        return self.heap0[key]

    def fieldarrs(self, st, cls, field, shape):
        return [self.heapkey(st, (cls, field, i), z3.ArraySort(I, l)) for i, l in enumerate(shape.leaves())]

    def ghost(self, st, name, sort=None):
        sort = sort or self.C.ghosts[name]
        return self.heapkey(st, ('ghost', name, 0), sort)

    def set_ghost(self, st, name, v):
        st.heap[('ghost', name, 0)] = v

    def sub(self, cls, field, ref):
        k = 'sub_%s_%s' % (cls, field)
        k = k.replace('::', '.')
        if k not in alloc_sub:
            alloc_sub[k] = z3.Function(k, I, I)
        return alloc_sub[k](ref)

    def field_shape(self, cls, field):
        for f in self.prog.fields.get(cls, []):
            if f['name'] == field:
                return self.types.of(f)
        raise Unsupported('no field %s::%s in the source' % (cls, field))

    def read(self, lv, st, node=None):
        if isinstance(lv, LCell):
            return st.cells[lv.id]
        if isinstance(lv, LTemp):
            return lv.val
        if isinstance(lv, LHeap):
            if isinstance(lv.shape, SEnt):
                return LObj(lv.shape.cls, self.sub(lv.cls, lv.field, lv.ref))
            self.access(lv, st, False, node)
            arrs = self.fieldarrs(st, lv.cls, lv.field, lv.shape)
            v = unpack(lv.shape, [z3.Select(a, lv.ref) for a in arrs])
            if (lv.cls, lv.field) in self.C.volatile:
                b = st.fresh('volatile_' + lv.field, B)
                st.assume(z3.Implies(v, b))
                return b
            self.facts(st, lv.shape, v)
            return v
        if isinstance(lv, LSub):
            b = self.read(lv.base, st, node)
            if isinstance(b, Struct):
                if lv.field not in b.vals:
                    raise Unsupported('no member %s' % lv.field, node)
                return b.get(lv.field)
            if isinstance(b, Opaque) and hasattr(b, lv.field):
                return getattr(b, lv.field)
            raise Unsupported('member %s of %r' % (lv.field, type(b).__name__), node)
        if isinstance(lv, LIdx):
            b = self.read(lv.base, st, node)
            if isinstance(b, Vec):
                v = b.at(lv.idx)
                self.facts(st, b.shape.elem, v)
                return v
            raise Unsupported('element of %r' % type(b).__name__, node)
        if isinstance(lv, LKey):
            b = self.read(lv.base, st, node)
            v = b.val(lv.key)
            self.facts(st, b.shape.v, v)
            if lv.pair:
                return Struct(SStruct('pair', [('first', b.shape.k), ('second', b.shape.v)]), {'first': lv.key, 'second': v})
            return v
        if isinstance(lv, LObj):
            return lv
        raise Unsupported('read %r' % type(lv).__name__, node)

    def facts(self, st, shape, v):
        have = set(c.get_id() for c in st.pc)
        for c in wf_val(shape, v):
            self.valfacts.add(c.get_id())
            if c.get_id() not in have:
                st.pc.append(c)
            if c.get_id() not in self.factids:
                self.factids.add(c.get_id())
                self.factkeep.append(c)

    def write(self, lv, val, st, node=None):
        if isinstance(lv, LCell):
            st.cells[lv.id] = val
            return
        if isinstance(lv, LHeap):
            self.access(lv, st, True, node)
            val = self.coerce(val, lv.shape, st)
            if (lv.cls, lv.field) in self.C.write_hooks:
                self.C.write_hooks[(lv.cls, lv.field)](self, lv.ref, val, st, node)
            for i, (l, t) in enumerate(zip(lv.shape.leaves(), pack(lv.shape, val))):
                k = (lv.cls, lv.field, i)
                st.heap[k] = z3.Store(self.heapkey(st, k, z3.ArraySort(I, l)), lv.ref, t)
            return
        if isinstance(lv, LSub):
            b = self.read_raw(lv.base, st, node)
            if not isinstance(b, Struct):
                raise Unsupported('write to member of %r' % type(b).__name__, node)
            sh = dict(b.shape.fields).get(lv.field)
            self.write(lv.base, b.set(lv.field, self.coerce(val, sh, st) if sh else val), st, node)
            return
        if isinstance(lv, LIdx):
            b = self.read_raw(lv.base, st, node)
            self.write(lv.base, b.put(lv.idx, self.coerce(val, b.shape.elem, st)), st, node)
            return
        if isinstance(lv, LKey):
            b = self.read_raw(lv.base, st, node)
            if lv.pair:
                val = val.get('second')
            vs = pack(b.shape.v, self.coerce(val, b.shape.v, st))
            nb = Map(b.shape, b.dom, b.n, b.keys, b.kidx, [z3.Store(a, lv.key, x) for a, x in zip(b.arrs, vs)])
            self.write(lv.base, nb, st, node)
            return
        if isinstance(lv, LTemp):
            lv.val = val
            return
        raise Unsupported('write %r' % type(lv).__name__, node)

    def read_raw(self, lv, st, node):
        return self.read(lv, st, node)

    def rv(self, v, st, node=None):
        return self.read(v, st, node) if isinstance(v, LVal) and not isinstance(v, LObj) else v

    def coerce(self, v, shape, st):
        """Fit a value to a shape (closures become function ids, nullptr becomes a null reference...)."""
        if shape is None:
            return v
        if isinstance(v, LVal) and not isinstance(v, LObj):
            v = self.read(v, st)
        if isinstance(shape, SFn):
            if isinstance(v, (Closure, PyFn)):
                return self.fnid(v, st)
            if isinstance(v, Opaque) and v.kind == 'nullptr':
                return z3.IntVal(0)
        if isinstance(shape, SRef):
            if isinstance(v, Ptr):
                if isinstance(v.target, LObj):
                    return v.target.ref
                if isinstance(v.target, LHeap) and isinstance(v.target.shape, SEnt):
                    return self.sub(v.target.cls, v.target.field, v.target.ref)
            if isinstance(v, LObj):
                return v.ref
            if isinstance(v, Opaque) and v.kind == 'nullptr':
                return z3.IntVal(0)
            if isinstance(v, Opaque) and v.kind == 'xml_doc':
                return v.ref
        if isinstance(shape, SBool) and z3.is_expr(v) and v.sort() == I:
            return v != 0
        if isinstance(shape, SInt) and z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(shape, SStruct) and isinstance(v, Struct) and v.shape is not shape:
            if [f for f, _ in v.shape.fields] == [f for f, _ in shape.fields]:
                return Struct(shape, {f: self.coerce(v.vals[f], s, st) for f, s in shape.fields})
        if isinstance(shape, SVec) and isinstance(v, Opaque) and v.kind == 'initlist':
            nv = empty_vec(shape, st)
            for x in v.items:
                nv = nv.push(self.coerce(x, shape.elem, st))
            return nv
        if isinstance(shape, SMap) and isinstance(v, Opaque) and v.kind == 'initlist':
            return self.lib.map_of(shape, v.items, st)
        if isinstance(shape, SStruct) and isinstance(v, Opaque) and v.kind == 'initlist' and len(v.items) == len(shape.fields):
            return Struct(shape, {f: self.coerce(x, fs, st) for x, (f, fs) in zip(v.items, shape.fields)})
        if isinstance(shape, SStr) and isinstance(v, Opaque) and v.kind == 'nullptr':
            return EMPTY
        return v

    def fnid(self, clo, st):
        for k, c in self.closures.items():
            if c is clo:
                return self.closure_terms[k]
        self.nfn += 1
        t = st.fresh('fn_closure', I)
        st.assume(t > 0)
        if not hasattr(self, 'closure_terms'):
            self.closure_terms = {}
        self.closures[t.get_id()] = clo
        self.closure_terms[t.get_id()] = t
        return t

    def closure_of(self, t):
        return self.closures.get(t.get_id())

    # ------------------------------------------------------------ guarded-by discipline
    def access(self, lv, st, write, node):
        g = self.C.guard_of(lv.cls, lv.field)
        if g is None:
            return
        if any(lv.ref.eq(r) for r in st.cons):
            return
        kind, lock = g
        where = '%s::%s' % (last(lv.cls), lv.field)
        if kind == 'immutable':
            if write:
                self.oblige(st, 'guard.%s.not-written-after-construction' % where, z3.BoolVal(False), {'LOCK'}, node, 'guard')
            return
        if kind == 'atomic':
            return
        conds = []
        for (ln, ref, mode) in st.held:
            if ln == lock and (mode == 'ex' or not write):
                conds.append(ref == self.C.lock_owner(self, lv.cls, lv.field, lv.ref))
        goal = simp(z3.Or(*conds)) if conds else z3.BoolVal(False)
        self.oblige(st, 'guard.%s.%s-under-%s' % (where, 'write' if write else 'read', lock.split('::')[-1]), goal, {'LOCK'}, node, 'guard')

    def acquire(self, st, lock, mode, node, try_=False):
        """lock: LHeap of a mutex."""
        if not isinstance(lock, LHeap):
            # a local mutex: tracked by cell
            name, ref = 'local', z3.IntVal(lock.id if isinstance(lock, LCell) else 0)
        else:
            name, ref = lock.cls + '::' + lock.field, lock.ref
        lev = self.C.lock_level(name)
        for (ln, r, m) in st.held:
            l2 = self.C.lock_level(ln)
            if ln == name:
                self.oblige(st, 'lock.%s.not-reacquired' % name.split('ptne::')[-1], z3.And(r != ref, z3.BoolVal(self.C.same_level_ok(name))), {'ORDER'}, node, 'lockorder')
            else:
                ok = lev is not None and l2 is not None and l2 < lev
                self.oblige(st, 'lock.order.%s-before-%s' % (ln.split('ptne::')[-1], name.split('ptne::')[-1]), z3.BoolVal(ok), {'ORDER'}, node, 'lockorder')
        st.held.append((name, ref, mode))
        if name in self.C.monitors and not any(ref.eq(r) for r in st.cons):
            self.C.monitors[name].on_acquire(self, st, ref, mode)

    def release(self, st, lock, node):
        if not isinstance(lock, LHeap):
            name, ref = 'local', z3.IntVal(lock.id if isinstance(lock, LCell) else 0)
        else:
            name, ref = lock.cls + '::' + lock.field, lock.ref
        for i in reversed(range(len(st.held))):
            ln, r, m = st.held[i]
            if ln == name and r.eq(ref):
                del st.held[i]
                if name in self.C.monitors and not any(ref.eq(r) for r in st.cons):
                    self.C.monitors[name].on_release(self, st, ref, m, node)
                return
        self.oblige(st, 'lock.%s.released-only-when-held' % name.split('ptne::')[-1], z3.BoolVal(False), {'ORDER'}, node, 'lockorder')

    def blocking(self, st, what, node, allow=()):
        """A blocking wait: no lock another thread needs may be held."""
        bad = [ln for ln, r, m in st.held if ln not in allow and not self.C.may_wait_holding(ln)]
        self.oblige(st, 'wait.%s.holds-no-lock' % what, z3.BoolVal(not bad), {'ORDER'}, node, 'lockorder')

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        """-> [(value or Exc, st)]"""
        k = n['kind']
        if k in TRANSPARENT:
            return self.ev(inner(n)[0], st)
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k, n)
        return m(n, st)

    def evs(self, ns, st):
        """Sequential evaluation -> [([values] or Exc, st)]"""
        acc = [([], st)]
        for n in ns:
            nxt = []
            for vs, s in acc:
                if isinstance(vs, Exc):
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.ev(n, s):
                    nxt.append((v if isinstance(v, Exc) else vs + [v], s2))
            acc = nxt
        return acc

    def bind(self, rs, f):
        out = []
        for v, s in rs:
            if isinstance(v, Exc):
                out.append((v, s))
            else:
                out += f(v, s)
        return out

    def ty(self, n):
        t = n.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType', '')

    def x_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = inner(n)[0]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return [(Opaque('fnptr', node=sub), st)]

        def f(v, s):
            if ck == 'LValueToRValue':
                return [(self.rv(v, s, n), s)]
            if ck in ('NoOp', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay',
                      'BitCast', 'BaseToDerived', 'FloatingCast'):
                return [(v, s)]
            if ck == 'UserDefinedConversion':
                return self.user_conv(n, v, s)
            if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
                return [(self.intcast(self.rv(v, s), self.ty(n), s, n), s)]
            if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
                x = self.rv(v, s)
                if isinstance(x, Ptr):
                    return [(z3.BoolVal(True), s)]
                return [(x != 0 if z3.is_expr(x) and x.sort() == I else z3.BoolVal(True), s)]
            if ck == 'NullToPointer':
                return [(Opaque('nullptr'), s)]
            if ck == 'ToVoid':
                return [(VOID, s)]
            if ck in ('IntegralToFloating', 'FloatingToIntegral'):
                return [(s.fresh('float', I), s)]
            raise Unsupported('cast ' + str(ck), n)
        return self.bind(self.ev(sub, st), f)

    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr = x_ImplicitCastExpr
    x_CXXConstCastExpr = x_ImplicitCastExpr

    def user_conv(self, n, v, s):
        return [(v, s)]

    def intcast(self, v, ty, st, n):
        if isinstance(v, Opaque) or isinstance(v, (Closure, Ptr)):
            return v
        base = parse(ty)[0]
        if base == 'bool':
            return v if v.sort() == B else simp(v != 0)
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        try:
            sh = self.types.shape(ty, n)
        except Unsupported:
            return v
        if not isinstance(sh, SInt) or sh.lo is None:
            return v
        if z3.is_int_value(v):
            x = v.as_long()
            if sh.lo <= x <= sh.hi:
                return v
            w = sh.hi - sh.lo + 1
            return z3.IntVal((x - sh.lo) % w + sh.lo)
        frm = inner(n)[0]
        try:
            fs = self.types.shape(self.ty(frm), n)
            if isinstance(fs, SInt) and fs.lo is not None and fs.lo >= sh.lo and fs.hi <= sh.hi:
                return v
        except Unsupported:
            pass
        w = sh.hi - sh.lo + 1
        if w == TWO64:
            # same width: wrap around once
            return z3.If(v < sh.lo, v + w, z3.If(v > sh.hi, v - w, v))
        if sh.lo == 0:
            return v % w
        return (v - sh.lo) % w + sh.lo

    def x_IntegerLiteral(self, n, st):
        return [(z3.IntVal(int(n['value'])), st)]

    def x_CharacterLiteral(self, n, st):
        return [(z3.IntVal(int(n['value'])), st)]

    def x_FloatingLiteral(self, n, st):
        return [(st.fresh('float', I), st)]

    def x_CXXBoolLiteralExpr(self, n, st):
        return [(z3.BoolVal(bool(n['value'])), st)]

    def x_StringLiteral(self, n, st):
        import json as _j
        s = n['value']
        try:
            s = _j.loads(s)
        except Exception:
            s = s.strip('"')
        return [(lit(s), st)]

    def x_CXXNullPtrLiteralExpr(self, n, st):
        return [(Opaque('nullptr'), st)]

    def x_GNUNullExpr(self, n, st):
        return [(Opaque('nullptr'), st)]

    def x_UserDefinedLiteral(self, n, st):
        # chrono literals: the duration, uninterpreted but for its literal
        def find(x):
            if x.get('kind') == 'IntegerLiteral':
                return int(x['value'])
            for c in inner(x):
                r = find(c)
                if r is not None:
                    return r
            return None
        v = find(n)
        return [(z3.IntVal(v if v is not None else 0), st)]

    def x_ImplicitValueInitExpr(self, n, st):
        return [(self.default(self.types.of(n), st), st)]

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def default(self, sh, st):
        if isinstance(sh, SInt):
            return z3.IntVal(0)
        if isinstance(sh, SBool):
            return z3.BoolVal(False)
        if isinstance(sh, SStr):
            return EMPTY
        if isinstance(sh, (SFn, SRef)):
            return z3.IntVal(0)
        if isinstance(sh, SVec):
            return empty_vec(sh, st)
        if isinstance(sh, SMap):
            return empty_map(sh, st)
        if isinstance(sh, SStruct):
            q = sh.name
            d = {}
            fs = {f['name']: f for f in self.prog.fields.get(q, [])}
            for f, s in sh.fields:
                fd = fs.get(f)
                init = [c for c in inner(fd) if c['kind'] not in ('FullComment',) and not c['kind'].endswith('Attr')] if fd else []
                if init:
                    r = self.ev(init[0], st)
                    if len(r) != 1 or isinstance(r[0][0], Exc):
                        raise Unsupported('default member initialiser of ' + f)
                    d[f] = self.coerce(self.rv(r[0][0], st), s, st)
                else:
                    d[f] = self.default(s, st)
            return Struct(sh, d)
        if isinstance(sh, SOpaque):
            return Opaque(sh.name)
        raise Unsupported('default value of %r' % sh)

    def x_CXXThisExpr(self, n, st):
        t = st.env.get('this')
        if t is None:
            raise Unsupported('this', n)
        return [(Ptr(t), st)]

    def x_DeclRefExpr(self, n, st):
        r = n['referencedDecl']
        rid = r['id']
        if rid in st.env:
            return [(st.env[rid], st)]
        d = n['_tu'].ids.get(rid)
        if r['kind'] == 'EnumConstantDecl':
            if d is not None and '_value' in d:
                return [(z3.IntVal(d['_value']), st)]
            en = self.prog.enums.get(r.get('type', {}).get('qualType', ''))
            if en and r.get('name') in en:
                return [(z3.IntVal(en[r['name']]), st)]
            return [(z3.IntVal(self.lib.enumconst(r, n)), st)]
        if r['kind'] in FUNK:
            return [(Opaque('fnptr', node=n), st)]
        if r['kind'] in ('VarDecl', 'BindingDecl'):
            if d is not None:
                q = d.get('_qname')
                g = self.prog.globals.get(q)
                if g is not None and inner(g):
                    return self.bind(self.ev(inner(g)[-1], st), lambda v, s: [(LTemp(self.rv(v, s)), s)])
                if d.get('_qname') and self.types.of(d) is STR:
                    return [(LTemp(lit('global:' + q)), st)]
            return [(Opaque('var', name=r['name'], type=r.get('type', {}).get('qualType', '')), st)]
        raise Unsupported('reference to %s %s' % (r['kind'], r.get('name')), n)

    def x_MemberExpr(self, n, st):
        d = n['_tu'].ids.get(n.get('referencedMemberDecl'))
        base = inner(n)[0]

        def f(b, s):
            o = self.deref(b, s, n) if n.get('isArrow') else b
            return [(self.member(o, n['name'], d, s, n), s)]
        return self.bind(self.ev(base, st), f)

    def deref(self, b, s, n):
        if isinstance(b, LVal) and not isinstance(b, LObj):
            b = self.read(b, s, n)
        if isinstance(b, Ptr):
            return b.target
        if z3.is_expr(b) and b.sort() == I:
            return LObj(None, b)
        if isinstance(b, Iter):
            return self.lib.iter_deref(b, s, n)
        if isinstance(b, LObj):
            return b
        if isinstance(b, Opaque):
            return b
        raise Unsupported('dereference of %r' % type(b).__name__, n)

    def member(self, o, name, d, s, n, init=False):
        if d is not None and d['kind'] == 'FieldDecl':
            rec = d['_record']
            if isinstance(o, LObj) or (isinstance(o, LHeap) and isinstance(o.shape, SEnt)):
                ref = o.ref if isinstance(o, LObj) else self.sub(o.cls, o.field, o.ref)
                return LHeap(rec, ref, name, self.types.of(d))
            m = LSub(o, name) if isinstance(o, LVal) else LTemp(o.get(name)) if isinstance(o, Struct) else None
            if m is None:
                raise Unsupported('member of %r' % type(o).__name__, n)
            if not init and d['type']['qualType'].rstrip().endswith('&'):
                # a reference member names the object it was bound to
                v = self.read(m, s, n)
                if isinstance(v, Ptr):
                    return v.target
                if isinstance(v, LObj):
                    return v
                if z3.is_expr(v) and v.sort() == I and isinstance(self.types.of(d), SRef):
                    return LObj(self.types.of(d).cls, v)
                raise Unsupported('reference member bound to %r' % type(v).__name__, n)
            return m
        # std members (pair::first ...)
        if isinstance(o, LVal):
            return LSub(o, name)
        if isinstance(o, Struct):
            return LTemp(o.get(name))
        if isinstance(o, Opaque) and hasattr(o, name):
            return getattr(o, name)
        raise Unsupported('member %s of %r' % (name, type(o).__name__), n)

    def x_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = inner(n)[0]

        def f(v, s):
            if op == '!':
                x = self.rv(v, s)
                x = self.truth(x, s, n)
                return [(simp(z3.Not(x)), s)]
            if op == '-':
                return [(simp(-self.rv(v, s)), s)]
            if op == '+':
                return [(self.rv(v, s), s)]
            if op == '*':
                return [(self.deref(v, s, n), s)]
            if op == '&':
                if isinstance(v, Opaque):
                    return [(v, s)]
                return [(Ptr(v), s)]
            if op in ('++', '--'):
                old = self.rv(v, s, n)
                new = self.incdec(old, 1 if op == '++' else -1, n, s)
                self.write(v, new, s, n)
                return [(old if n.get('isPostfix') else v, s)]
            raise Unsupported('unary ' + op, n)
        return self.bind(self.ev(sub, st), f)

    def surely(self, st, goal):
        """A quick attempt: the quantifier-free hypotheses alone imply the goal."""
        s = z3.SimpleSolver()
        s.set('timeout', 200)
        s.add(*[c for c in st.pc if not has_quantifier(c)])
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def incdec(self, old, d, n, st=None):
        if isinstance(old, Iter):
            return Iter(old.cont, simp(old.idx + d))
        sh = None
        try:
            sh = self.types.of(n)
        except Unsupported:
            pass
        return self.wrap(old + d, sh, st)

    def wrap(self, t, sh, st=None):
        if isinstance(sh, SInt) and sh.lo == 0 and sh.hi is not None:
            w = sh.hi + 1
            t = simp(t)
            if z3.is_int_value(t):
                return z3.IntVal(t.as_long() % w)
            if st is not None and self.surely(st, z3.And(0 <= t, t < w)):
                return t
            return z3.If(t >= w, t - w, z3.If(t < 0, t + w, t))
        return simp(t)

    def truth(self, x, s, n):
        if isinstance(x, LVal) and not isinstance(x, LObj):
            x = self.read(x, s, n)
        if z3.is_expr(x):
            if x.sort() == B:
                return x
            if x.sort() == I:
                return x != 0
        if isinstance(x, (Closure, PyFn)):
            return z3.BoolVal(True)
        if isinstance(x, Opaque) and x.kind == 'nullptr':
            return z3.BoolVal(False)
        if isinstance(x, Opaque) and hasattr(x, 'ok'):
            return x.ok
        if isinstance(x, Ptr):
            return z3.BoolVal(True)
        raise Unsupported('truth value of %r' % type(x).__name__, n)

    def x_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = inner(n)[:2]
        if op in ('&&', '||'):
            out = []
            for v, s in self.ev(a, st):
                if isinstance(v, Exc):
                    out.append((v, s))
                    continue
                c = self.truth(self.rv(v, s), s, n)
                for side, s2 in self.fork(s, c):
                    if (op == '&&') == side:
                        out += self.bind(self.ev(b, s2), lambda w, s3: [(self.truth(self.rv(w, s3), s3, n), s3)])
                    else:
                        out.append((z3.BoolVal(side), s2))
            return out
        if op == ',':
            return self.bind(self.ev(a, st), lambda _, s: self.ev(b, s))
        if op == '=':
            def f(vs, s):
                rhs, lhs = vs
                self.assign(lhs, rhs, s, n)
                return [(lhs, s)]
            return self.bind(self.evs([b, a], st), f)

        def g(vs, s):
            return [(self.arith(op, self.rv(vs[0], s), self.rv(vs[1], s), s, n), s)]
        return self.bind(self.evs([a, b], st), g)

    def assign(self, lhs, rhs, s, n):
        v = self.rv(rhs, s, n)
        if isinstance(lhs, LCell):
            sh = shape_of(s.cells.get(lhs.id))
            if sh is not None:
                v = self.coerce(v, sh, s)
        self.write(lhs, v, s, n)

    def arith(self, op, a, b, s, n):
        if op in ('==', '!='):
            r = self.equal(a, b, s, n)
            return simp(r if op == '==' else z3.Not(r))
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.lib.iter_arith(op, a, b, s, n)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('operands of ' + op, n)
        if a.sort() == Str and op == '+' and b.eq(strlen_f(a)):
            return Opaque('strend', s=a)
        if a.sort() == Str or b.sort() == Str:
            raise Unsupported('operands of ' + op, n)
        if a.sort() == B and b.sort() == B and op in ('|', '&', '^'):
            return simp({'|': z3.Or, '&': z3.And, '^': z3.Xor}[op](a, b))
        if a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == '<':
            return simp(a < b)
        if op == '>':
            return simp(a > b)
        if op == '<=':
            return simp(a <= b)
        if op == '>=':
            return simp(a >= b)
        sh = None
        try:
            sh = self.types.of(n)
        except Unsupported:
            pass
        if op == '+':
            return self.wrap(a + b, sh, s)
        if op == '-':
            return self.wrap(a - b, sh, s)
        if op == '*':
            t = simp(a * b)
            if isinstance(sh, SInt) and sh.lo == 0 and not z3.is_int_value(t):
                return t % (sh.hi + 1)
            return t
        if op in ('/', '%') and z3.is_int_value(b) and b.as_long() > 0:
            return a / b if op == '/' else a % b
        if op in ('|', '&', '^'):
            # bits of bools widened to int
            az, bz = a, b
            if self.is01(a) and self.is01(b):
                x, y = a != 0, b != 0
                r = {'|': z3.Or(x, y), '&': z3.And(x, y), '^': z3.Xor(x, y)}[op]
                return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('operator ' + op, n)

    def is01(self, t):
        return z3.is_app_of(t, z3.Z3_OP_ITE) and all(z3.is_int_value(c) and c.as_long() in (0, 1) for c in t.children()[1:]) or \
            (z3.is_int_value(t) and t.as_long() in (0, 1))

    def equal(self, a, b, s, n):
        if isinstance(a, Opaque) and a.kind == 'nullptr':
            a, b = b, a
        if isinstance(b, Opaque) and b.kind == 'nullptr':
            if z3.is_expr(a):
                return a == 0
            if isinstance(a, (Closure, PyFn, Ptr)):
                return z3.BoolVal(False)
            if isinstance(a, Opaque) and a.kind == 'nullptr':
                return z3.BoolVal(True)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.idx == b.idx
        if isinstance(a, Opaque) and isinstance(b, Opaque) and {a.kind, b.kind} == {'strpos', 'strend'}:
            return self.lib.strpos_eq(a, b, n)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if isinstance(a.target, LObj) and isinstance(b.target, LObj):
                return a.target.ref == b.target.ref
        if isinstance(a, Ptr) and isinstance(a.target, LObj) and z3.is_expr(b):
            return a.target.ref == b
        if isinstance(b, Ptr) and isinstance(b.target, LObj) and z3.is_expr(a):
            return b.target.ref == a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() == B and b.sort() == I:
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == B and a.sort() == I:
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if a.sort() == b.sort():
                return a == b
        if isinstance(a, (Struct, Vec, Map)) and isinstance(b, (Struct, Vec, Map)):
            return veq(a.shape, a, b)
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__), n)

    def x_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = inner(n)[:2]

        def f(vs, s):
            rhs, lhs = self.rv(vs[0], s), vs[1]
            old = self.rv(lhs, s, n)
            if z3.is_expr(old) and old.sort() == B and op in ('|', '&', '^'):
                r = self.truth(rhs, s, n) if not (z3.is_expr(rhs) and rhs.sort() == I) else rhs != 0
                new = simp({'|': z3.Or, '&': z3.And, '^': z3.Xor}[op](old, r))
            elif isinstance(old, Iter):
                new = self.lib.iter_arith(op, old, rhs, s, n)
            else:
                new = self.arith(op, old, rhs, s, n)
            self.write(lhs, new, s, n)
            return [(lhs, s)]
        return self.bind(self.evs([b, a], st), f)

    def x_ConditionalOperator(self, n, st):
        c, a, b = inner(n)[:3]

        def f(v, s):
            out = []
            for side, s2 in self.fork(s, self.truth(self.rv(v, s), s, n)):
                out += self.ev(a if side else b, s2)
            return out
        return self.bind(self.ev(c, st), f)

    def x_CXXThrowExpr(self, n, st):
        sub = inner(n)
        if not sub:
            cur = st.env.get('exc')
            if cur is None:
                raise Unsupported('rethrow', n)
            return [(cur, st)]
        t = self.ty(sub[0])

        def f(v, s):
            if isinstance(v, Exc):
                return [(v, s)]
            v = self.rv(v, s)
            if isinstance(v, Opaque) and v.kind == 'excobj':
                return [(Exc(v.cls, v.msg, n), s)]
            raise Unsupported('thrown value', n)
        return self.bind(self.ev(sub[0], st), f)

    def x_CXXNoexceptExpr(self, n, st):
        return [(z3.BoolVal(True), st)]

    def x_CXXDefaultArgExpr(self, n, st):
        raise Unsupported('default argument outside a call', n)

    def x_CXXDefaultInitExpr(self, n, st):
        raise Unsupported('default initialiser', n)

    def x_LambdaExpr(self, n, st):
        rec = inner(n)[0]
        fields = [c for c in inner(rec) if c['kind'] == 'FieldDecl']
        inits = inner(n)[1:1 + len(fields)]
        env = {}
        this = None
        # the variables the body names that are neither its own nor variables outside: init-captures
        own, named = set(), {}
        todo = [c for c in inner(n) if c.get('kind') not in ('CXXRecordDecl', None)][len(fields):] + [c for c in inner(rec) if c.get('kind') == 'CXXMethodDecl']
        while todo:
            c = todo.pop()
            if c.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
                own.add(c['id'])
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'):
                named[c['referencedDecl']['id']] = c['referencedDecl']
            todo += inner(c)
        caps = []
        for f, e in zip(fields, inits):
            x = e
            byref = f['type']['qualType'].rstrip().endswith('&')
            while x['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and len(inner(x)) == 1:
                x = inner(x)[0]
            if x['kind'] == 'CXXThisExpr':
                this = st.env.get('this')
                continue
            did = x['referencedDecl']['id'] if x['kind'] == 'DeclRefExpr' else None
            if did is None or did not in named:
                caps.append((f, e, byref))
                continue
            lv = st.env.get(did)
            if lv is None:
                raise Unsupported('captured variable', n)
            if byref:
                env[did] = lv
            else:
                env[did] = LTemp(self.rv(lv, st, n) if not isinstance(lv, LObj) else lv)
        if caps:
            free = sorted((i for i in named if i not in own and i not in env and i not in st.env and n['_tu'].ids.get(i) is None), key=lambda i: int(i, 16))
            if not free:
                # captured and not used
                caps = [c for c in caps if not self.plain_capture(c[1], st)]
            if len(free) != len(caps) or any(self.ty(f).replace('const ', '').rstrip('& ') != (named[i]['type'].get('desugaredQualType') or named[i]['type']['qualType']).replace('const ', '').rstrip('& ')
                                             and f['type']['qualType'].replace('const ', '').rstrip('& ') != named[i]['type']['qualType'].replace('const ', '').rstrip('& ')
                                             for i, (f, _, _) in zip(free, caps)):
                raise Unsupported('init-capture', n)
            for i, (f, e, byref) in zip(free, caps):
                rs = self.ev(e, st)
                if len(rs) != 1 or isinstance(rs[0][0], Exc):
                    raise Unsupported('init-capture', n)
                v, st = rs[0]
                env[i] = v if byref and isinstance(v, LVal) or isinstance(v, LObj) else LTemp(self.rv(v, st, n))
        return [(Closure(n, env, this), st)]

    def plain_capture(self, e, st):
        while e['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'ParenExpr') and len(inner(e)) == 1:
            e = inner(e)[0]
        return e['kind'] == 'DeclRefExpr' and e['referencedDecl']['id'] in st.env

    def lambda_body(self, node):
        rec = inner(node)[0]
        best = None
        for c in inner(rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()' and body_of(c):
                return c
            if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for m in inner(c):
                    if m['kind'] == 'CXXMethodDecl' and body_of(m) and any(x['kind'] == 'TemplateArgument' for x in inner(m)):
                        return m
        raise Unsupported('lambda without an instantiated body', node)

    def call_closure(self, clo, args, st, n):
        if isinstance(clo, PyFn):
            if clo.fn is None:
                raise Unsupported('call of ' + clo.name, n)
            return clo.fn(args, st, n)
        m = self.lambda_body(clo.node)
        return self.run_body(m, clo.this, args, st, n, env0=clo.env)

    # ------------------------------------------------------------ construction
    def x_CXXConstructExpr(self, n, st):
        t = self.ty(n)
        args = inner(n)
        base, targs, ref, ptr = parse(t)
        l = last(base)
        if n.get('list') and len(args) == 1 and args[0]['kind'] == 'CXXStdInitializerListExpr':
            args = [args[0]]
        if l == '(lambda' or '(lambda at' in t:
            return self.bind(self.evs(args, st), lambda vs, s: [(self.rv(vs[0], s), s)])
        h = self.lib.ctors.get(l)
        if h:
            return self.bind(self.eval_args(args, None, st), lambda vs, s: h(t, targs, vs, s, n))
        q = self.types.record(t)
        if q is None:
            sh = self.types.shape(t, n)
            if len(args) == 0:
                return [(self.default(sh, st), st)]
            if len(args) == 1:
                return self.bind(self.evs(args, st), lambda vs, s: [(self.coerce(self.rv(vs[0], s), sh, s), s)])
            raise Unsupported('construction of ' + t, n)
        if self.is_exc(q):
            return self.bind(self.evs([a for a in args if a['kind'] != 'CXXDefaultArgExpr'], st),
                             lambda vs, s: [(Opaque('excobj', cls=q, msg=[self.rv(v, s) for v in vs]), s)])
        if self.types.is_entity(q):
            raise Unsupported('automatic object of class ' + q, n)
        sh = self.types.shape(q, n)
        return self.bind(self.eval_args(args, None, st), lambda vs, s: self.construct_value(q, sh, vs, s, n))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct_value(self, q, sh, vs, s, n):
        """Value records: copy, default, or user constructor."""
        self.own_dtor(sh, n)
        if len(vs) == 1:
            v = self.rv(vs[0], s)
            if isinstance(v, Struct) and v.shape.name == sh.name:
                if self.cleanup(sh):
                    raise Unsupported('copy of an object with a destructor', n)
                return [(v, s)]
        ctor = self.find_ctor(q, len(vs), n)
        if ctor is None or body_of(ctor) is None or ctor.get('isImplicit'):
            if not vs:
                return [(self.default(sh, s), s)]
            if len(vs) == len(sh.fields):
                return [(Struct(sh, {f: self.coerce(self.rv(v, s), fs, s) for v, (f, fs) in zip(vs, sh.fields)}), s)]
            raise Unsupported('constructor of ' + q, n)
        cell = self.newcell(s, self.default_raw(sh, s))
        return self.bind(self.run_ctor(ctor, q, cell, vs, s, n), lambda _, s2: [(self.read(cell, s2), s2)])

    def default_raw(self, sh, st):
        d = {}
        for f, s in sh.fields:
            try:
                d[f] = self.default(s, st)
            except Unsupported:
                d[f] = Opaque('uninit')
        return Struct(sh, d)

    def find_ctor(self, q, nargs, n=None):
        l = [c for c in self.prog.funcs.get(q + '::' + last(q), []) if c['kind'] == 'CXXConstructorDecl' and body_of(c) is not None]
        l2 = [c for c in l if len(params_of(c)) == nargs]
        if len(l2) > 1:
            # not the copy / move constructors
            l3 = [c for c in l2 if not (nargs == 1 and last(q) in c['type']['qualType'])]
            l2 = l3 or l2
        if l2:
            return l2[0]
        for c in l:
            ps = params_of(c)
            if len(ps) > nargs and all(p.get('init') for p in ps[nargs:]):
                return c
        return None

    def run_ctor(self, ctor, q, this, args, st, n):
        """Member initialisers then body, on lvalue `this`."""
        st2 = st
        saved = st.env
        env = dict(saved)
        env['this'] = this
        st2.env = env
        self.bind_params(ctor, args, st2, n)
        inits = [c for c in inner(ctor) if c['kind'] == 'CXXCtorInitializer']
        acc = [(VOID, st2)]
        done = set()
        for ini in inits:
            fld = ini.get('anyInit')
            if fld is None:
                continue   # base or delegating initialiser: bases of entities hold no verified state here
            f = self.prog.fields.get(q, [])
            fd = next((x for x in f if x['name'] == fld['name']), None)
            if fd is None:
                raise Unsupported('initialiser of ' + fld.get('name', '?'), n)
            done.add(fld['name'])
            sh = self.types.of(fd)
            e = inner(ini)
            nxt = []
            for v0, s in acc:
                if isinstance(v0, Exc):
                    nxt.append((v0, s))
                    continue
                lv = self.member(this, fld['name'], fd, s, ini, True)
                if isinstance(sh, SEnt):
                    nxt += self.construct_entity(sh.cls, LObj(sh.cls, self.sub(q, fld['name'], this.ref)), e, s, n)
                    continue
                if isinstance(sh, SOpaque):
                    nxt.append((VOID, s))
                    continue
                if not e or e[0]['kind'] == 'CXXDefaultInitExpr':
                    di = [c for c in inner(fd) if not c['kind'].endswith('Comment')]
                    rs = self.ev(di[0], s) if di else [(self.default(sh, s), s)]
                else:
                    rs = self.ev(e[0], s)
                for v, s3 in rs:
                    if isinstance(v, Exc):
                        nxt.append((v, s3))
                        continue
                    if isinstance(v, (Ptr,)) or (isinstance(v, LObj) and isinstance(sh, SRef)):
                        pass
                    elif isinstance(sh, SRef) and isinstance(v, LHeap) and isinstance(v.shape, SEnt):
                        v = self.sub(v.cls, v.field, v.ref)
                    elif isinstance(sh, SRef) and sh.kind == 'ref' and isinstance(v, LVal):
                        v = Ptr(v)
                    v = self.coerce(self.rv(v, s3), sh, s3) if not isinstance(v, (Ptr, LObj)) else self.coerce(v, sh, s3)
                    self.write(lv, v, s3, ini)
                    nxt.append((VOID, s3))
            acc = nxt
        out = []
        for v0, s in acc:
            if isinstance(v0, Exc):
                s.env = saved
                out.append((v0, s))
                continue
            for kind, data, s2 in self.block(body_of(ctor), s):
                s2.env = saved
                out.append((data if kind == THROW else VOID, s2))
        return out

    def construct_entity(self, cls, obj, argnodes, st, n):
        """Construct an embedded or heap-allocated object with identity."""
        if cls == 'pugi::xml_document':
            return [(VOID, st)]
        args = argnodes
        if len(argnodes) == 1 and argnodes[0]['kind'] in ('CXXConstructExpr',) and self.types.record(self.ty(argnodes[0])) == cls:
            args = inner(argnodes[0])
        return self.bind(self.eval_args(args, None, st), lambda vs, s: self.construct_obj(cls, obj, vs, s, n))

    def construct_obj(self, cls, obj, vs, st, n):
        con = self.C.get(cls + '::' + last(cls))
        ctor = self.find_ctor(cls, len(vs), n)
        if con is not None and cls + '::' + last(cls) != self.unit:
            return self.call_contract(con, ctor, obj, vs, st, n)
        st.cons = st.cons + (obj.ref,)
        if ctor is None:
            # defaulted constructor: default member initialisers
            for f in self.prog.fields.get(cls, []):
                sh = self.types.of(f)
                if isinstance(sh, SEnt):
                    r = self.construct_obj(sh.cls, LObj(sh.cls, self.sub(cls, f['name'], obj.ref)), [], st, n)
                    if len(r) != 1:
                        raise Unsupported('constructor of member ' + f['name'])
                elif not isinstance(sh, SOpaque):
                    di = [c for c in inner(f) if not c['kind'].endswith('Comment')]
                    v = self.rv(self.ev(di[0], st)[0][0], st) if di else self.default(sh, st)
                    self.write(LHeap(cls, obj.ref, f['name'], sh), self.coerce(v, sh, st), st, n)
            for b in self.prog.records[cls].get('bases', []):
                bq = self.types.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if bq and self.prog.fields.get(bq):
                    self.construct_obj_plain(bq, obj, st, n)
            return [(VOID, st)]
        for b in self.prog.records[cls].get('bases', []):
            bq = self.types.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if bq and self.prog.fields.get(bq):
                self.construct_obj_plain(bq, obj, st, n)
        if body_of(ctor) is None:
            raise Unsupported('constructor without a body', n)
        return self.run_ctor(ctor, cls, obj, vs, st, n)

    def construct_obj_plain(self, cls, obj, st, n):
        for f in self.prog.fields.get(cls, []):
            sh = self.types.of(f)
            if isinstance(sh, (SEnt, SOpaque)):
                continue
            di = [c for c in inner(f) if not c['kind'].endswith('Comment')]
            v = self.rv(self.ev(di[0], st)[0][0], st) if di else self.default(sh, st)
            self.write(LHeap(cls, obj.ref, f['name'], sh), self.coerce(v, sh, st), st, n)

    def alloc(self, st, cls):
        """A fresh object reference."""
        r = st.fresh('new_' + last(cls), I)
        al = self.ghost(st, 'allocated')
        st.assume(r > 0, z3.Not(z3.Select(al, r)))
        self.set_ghost(st, 'allocated', z3.Store(al, r, z3.BoolVal(True)))
        self.fresh_subs(st, cls, r, al)
        return r

    def fresh_subs(self, st, cls, r, al):
        """The sub-objects of a new object are new too."""
        todo = [cls]
        while todo:
            c = todo.pop()
            for g, v in self.C.fresh_ghosts.get(c, ()):
                st.assume(z3.Select(self.ghost(st, g), r) == v)
            for b in self.prog.records.get(c, {}).get('bases', []):
                bq = self.types.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if bq:
                    todo.append(bq)
            for f in self.prog.fields.get(c, []):
                try:
                    sh = self.types.of(f)
                except Unsupported:
                    continue
                if isinstance(sh, SEnt):
                    x = self.sub(c, f['name'], r)
                    st.assume(x > 0, z3.Not(z3.Select(al, x)))
                    self.fresh_subs(st, sh.cls, x, al)

    def x_InitListExpr(self, n, st):
        t = self.ty(n)
        sh = None
        try:
            sh = self.types.shape(t, n)
        except Unsupported:
            pass
        es = inner(n)
        if 'array_filler' in n:
            es = [c for c in es]

        def f(vs, s):
            if isinstance(sh, SStruct):
                self.own_dtor(sh, n)
                d = {}
                for i, (fn, fs) in enumerate(sh.fields):
                    if i < len(vs):
                        d[fn] = self.coerce(self.rv(vs[i], s), fs, s)
                    else:
                        d[fn] = self.default(sh, s).get(fn)
                return [(Struct(sh, d), s)]
            if sh is not None and not isinstance(sh, (SVec, SMap)):
                if not vs:
                    return [(self.default(sh, s), s)]
                if len(vs) == 1:
                    return [(self.coerce(self.rv(vs[0], s), sh, s), s)]
            return [(Opaque('initlist', items=[self.rv(v, s) for v in vs]), s)]
        # elements that are default initialisers take the field's
        real = []
        acc = [([], st)]
        for i, e in enumerate(es):
            nxt = []
            for vs, s in acc:
                if isinstance(vs, Exc):
                    nxt.append((vs, s))
                elif e['kind'] == 'CXXDefaultInitExpr' and isinstance(sh, SStruct):
                    nxt.append((vs + [self.default(sh, s).get(sh.fields[i][0])], s))
                else:
                    for v, s2 in self.ev(e, s):
                        nxt.append((v if isinstance(v, Exc) else vs + [v], s2))
            acc = nxt
        return self.bind(acc, f)

    x_CXXParenListInitExpr = x_InitListExpr

    def x_CXXStdInitializerListExpr(self, n, st):
        return self.ev(inner(n)[0], st)

    # ------------------------------------------------------------ calls
    def eval_args(self, ns, fdecl, st):
        """Arguments, with the callee's default arguments filled in."""
        ps = params_of(fdecl) if fdecl else []
        acc = [([], st)]
        for i, a in enumerate(ns):
            nxt = []
            for vs, s in acc:
                if isinstance(vs, Exc):
                    nxt.append((vs, s))
                    continue
                if a['kind'] == 'CXXDefaultArgExpr':
                    if i < len(ps):
                        p = ps[i]
                        init = [c for c in inner(p) if not c['kind'].endswith('Comment')]
                        if not init:
                            # default lives on the first declaration
                            first = fdecl.get('_first')
                            init = [c for c in inner(params_of(first)[i]) if not c['kind'].endswith('Comment')] if first else []
                        if not init:
                            raise Unsupported('default argument', a)
                        for v, s2 in self.ev(init[0], s):
                            nxt.append((v if isinstance(v, Exc) else vs + [v], s2))
                    else:
                        nxt.append((vs, s))
                    continue
                for v, s2 in self.ev(a, s):
                    nxt.append((v if isinstance(v, Exc) else vs + [v], s2))
            acc = nxt
        return acc

    def callee_of(self, n):
        x = n
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr') and inner(x):
            x = inner(x)[0]
        return x

    def x_CallExpr(self, n, st):
        ch = inner(n)
        cal = self.callee_of(ch[0])
        args = ch[1:]
        if cal['kind'] == 'DeclRefExpr':
            rd = cal['referencedDecl']
            d = cal['_tu'].ids.get(rd['id'])
            if rd['kind'] in FUNK:
                if d is None:
                    d = self.by_name(rd, cal)
                if d is not None and (d.get('_qname', '').startswith(('ptne', '(anon)')) or body_of(d) is not None):
                    return self.bind(self.eval_args(args, d, st), lambda vs, s: self.call_user(d, None, vs, s, n))
                return self.bind(self.eval_args(args, None, st), lambda vs, s: self.lib.call(rd['name'], rd.get('type', {}).get('qualType', ''), vs, s, n))
            if rd['id'] in st.env:
                return self.bind(self.eval_args(args, None, st), lambda vs, s: self.call_value(s.env[rd['id']], vs, s, n))
            return self.bind(self.eval_args(args, None, st), lambda vs, s: self.lib.niebloid(rd['name'], rd.get('type', {}).get('qualType', ''), vs, s, n))
        raise Unsupported('call through ' + cal['kind'], n)

    def by_name(self, rd, cal):
        """Functions of the anonymous namespace dumped by a separate clang run: matched by name and type."""
        t = rd.get('type', {}).get('qualType')
        for pre in ('(anon)::', 'ptne::(anon)::', 'ptne::(anonymous namespace)::', 'ptne::', ''):
            for q, l in self.prog.funcs.items():
                if q == pre + rd['name'] or q.startswith(pre + rd['name'] + '<'):
                    for c in l:
                        if body_of(c) is not None and c['type']['qualType'] == t and c['_tu'] is cal['_tu']:
                            return c
        return None

    def call_value(self, f, vs, s, n):
        f = self.rv(f, s, n)
        if isinstance(f, (Closure, PyFn)):
            return self.call_closure(f, vs, s, n)
        if z3.is_expr(f) and f.sort() == I:
            c = self.closure_of(f)
            if c is not None:
                return self.call_closure(c, vs, s, n)
            return self.lib.call_stdfunction(f, vs, s, n)
        if isinstance(f, Opaque) and f.kind == 'fnptr':
            x = f.node
            rd = x['referencedDecl']
            d = x['_tu'].ids.get(rd['id'])
            if d is not None and d.get('_qname', '').startswith('ptne'):
                return self.call_user(d, None, vs, s, n)
        if isinstance(f, Opaque) and f.kind in ('random_device', 'mersenne_twister_engine', 'mt19937', 'mt19937_64'):
            r = s.fresh('random', I)
            s.assume(r >= 0, r < TWO64)
            return [(r, s)]
        raise Unsupported('call of %r %s' % (type(f).__name__, getattr(f, 'kind', '')), n)

    def x_CXXMemberCallExpr(self, n, st):
        ch = inner(n)
        me = ch[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = inner(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'], n)
        base = inner(me)[0]
        args = ch[1:]
        d = me['_tu'].ids.get(me.get('referencedMemberDecl'))

        def f(b, s):
            o = self.deref(b, s, n) if me.get('isArrow') else b
            if d is not None and d.get('_qname', '').startswith('ptne'):
                return self.bind(self.eval_args(args, d, s), lambda vs, s2: self.call_user(d, o, vs, s2, n))
            if isinstance(o, (Struct, Vec, Map)):
                o = self.newcell(s, o)          # a temporary
            return self.bind(self.eval_args(args, None, s), lambda vs, s2: self.lib.method(o, me['name'], vs, s2, n, self.ty(base)))
        return self.bind(self.ev(base, st), f)

    def x_CXXOperatorCallExpr(self, n, st):
        ch = inner(n)
        cal = self.callee_of(ch[0])
        rd = cal.get('referencedDecl', {})
        name = rd.get('name', '')
        args = ch[1:]
        d = cal['_tu'].ids.get(rd.get('id')) if rd else None
        if name == 'operator()' and args:
            a0 = self.callee_of(args[0])
            if a0['kind'] == 'DeclRefExpr' and a0['referencedDecl']['kind'] == 'VarDecl' and a0['referencedDecl']['id'] not in st.env \
                    and '_fn' in a0['referencedDecl'].get('type', {}).get('qualType', ''):
                nm = a0['referencedDecl']['name']
                return self.bind(self.eval_args(args[1:], None, st), lambda vs, s: self.lib.niebloid(nm, '', vs, s, n))
        if d is not None and d.get('_qname', '').startswith('ptne') and name != 'operator()' and body_of(self.prog.define(d) or d) is not None \
                and not d.get('isImplicit') and not d.get('explicitlyDefaulted'):
            if d['kind'] == 'CXXMethodDecl':
                return self.bind(self.eval_args(args, None, st), lambda vs, s: self.call_user(d, vs[0], vs[1:], s, n))
            return self.bind(self.eval_args(args, None, st), lambda vs, s: self.call_user(d, None, vs, s, n))
        return self.bind(self.eval_args(args, None, st), lambda vs, s: self.lib.operator(name, vs, s, n, [self.ty(a) for a in args]))

    def call_user(self, d, this, args, st, n):
        q = d['_qname']
        # virtual dispatch goes to the contract of the static callee; non-virtual to contract or body
        con = self.C.overrides.get((self.unit, q)) or self.C.get(q, d)
        if con is not None and (q != self.unit or self.depth > 0):
            return self.call_contract(con, d, this, args, st, n)
        if d.get('pure') or (d.get('virtual') and body_of(self.prog.define(d) or d) is None):
            raise Unsupported('virtual call without a contract: ' + q, n)
        df = self.prog.define(d)
        if df is None or body_of(df) is None:
            if d.get('explicitlyDefaulted') or d.get('isImplicit'):
                return [(VOID, st)]
            raise Unsupported('no body for ' + q, n)
        if d['kind'] == 'CXXMethodDecl' and d.get('storageClass') == 'static':
            this = None
        self.inlined.add(q)
        return self.run_body(df, this, args, st, n)

    def bind_params(self, fdef, args, st, n):
        env = dict(st.env)
        ps = params_of(fdef)
        if len(args) < len(ps):
            extra = []
            first = fdef.get('_first')
            for i in range(len(args), len(ps)):
                init = [c for c in inner(ps[i]) if not c['kind'].endswith('Comment')]
                if not init and first:
                    init = [c for c in inner(params_of(first)[i]) if not c['kind'].endswith('Comment')]
                if not init:
                    raise Unsupported('missing argument', n)
                r = self.ev(init[0], st)
                extra.append(r[0][0])
            args = list(args) + extra
        for p, a in zip(ps, args):
            qt = p['type']['qualType'].rstrip()
            isref = qt.endswith('&')
            if isref:
                if isinstance(a, LVal):
                    # a reference to a value that needs conversion (closure -> std::function)
                    if isinstance(a, (LCell, LTemp)):
                        v = self.read(a, st)
                        if isinstance(v, (Closure, PyFn)):
                            sh = self.try_shape(p)
                            if isinstance(sh, SFn):
                                a = LTemp(self.coerce(v, sh, st))
                    env[p['id']] = a
                    continue
                sh = self.try_shape(p)
                if isinstance(a, Ptr) and isinstance(a.target, LObj) and isinstance(sh, SRef) and sh.kind == 'ref':
                    env[p['id']] = a.target
                    continue
                if sh is not None:
                    a = self.coerce(a, sh, st)
                env[p['id']] = self.newcell(st, a)
            else:
                sh = self.try_shape(p)
                v = self.rv(a, st, n)
                if sh is not None:
                    v = self.coerce(v, sh, st)
                env[p['id']] = self.newcell(st, v)
        st.env = env

    def try_shape(self, p):
        try:
            return self.types.of(p)
        except Unsupported:
            return None

    def run_body(self, fdef, this, args, st, n, env0=None):
        if self.depth >= self.MAXDEPTH or self.callstack.count(fdef['id']) > 1:
            raise Unsupported('recursion or inlining depth at ' + fdef.get('_qname', '?'), n)
        saved = st.env
        env = dict(env0) if env0 is not None else {}
        if this is not None:
            env['this'] = this
        st.env = env
        self.depth += 1
        self.callstack.append(fdef['id'])
        try:
            self.bind_params(fdef, args, st, n)
            outs = self.block(body_of(fdef), st, retref=fdef['type']['qualType'].split('(')[0].strip().endswith('&'))
        finally:
            self.depth -= 1
            self.callstack.pop()
        res = []
        noex = 'noexcept' in fdef['type']['qualType'] and 'noexcept(false)' not in fdef['type']['qualType']
        for kind, data, s in outs:
            s.env = saved
            if kind == THROW:
                if noex:
                    self.oblige(s, 'noexcept.%s.no-exception-escapes' % fdef.get('name'), z3.BoolVal(False), {'TERM'}, n, 'noexcept')
                    continue
                res.append((data, s))
            elif kind == RET:
                res.append((data, s))
            else:
                res.append((VOID, s))
        return res

    # ------------------------------------------------------------ contracts at calls
    def call_contract(self, con, d, this, args, st, n):
        self.used_contracts.add(con.name)
        # fit the arguments to the declared parameters
        ps = params_of(d) if d is not None else []
        vals = []
        if d is not None and len(args) < len(ps):
            df = self.prog.define(d) or d
            first = d.get('_first') or d
            args = list(args)
            for i in range(len(args), len(ps)):
                init = []
                for dd in (d, df, first):
                    init = init or [c for c in inner(params_of(dd)[i]) if not c['kind'].endswith('Comment')]
                if not init:
                    raise Unsupported('missing argument', n)
                args.append(self.ev(init[0], st)[0][0])
        for i, a in enumerate(args):
            sh = self.try_shape(ps[i]) if i < len(ps) else None
            if con.keep_lvalues:
                vals.append(a)
                continue
            if isinstance(a, LObj):
                v = a.ref
            elif isinstance(a, LHeap) and isinstance(a.shape, SEnt):
                v = self.sub(a.cls, a.field, a.ref)
            else:
                v = self.rv(a, st, n)
            if sh is not None:
                v = self.coerce(v, sh, st)
            vals.append(v)
        tref = self.this_ref(this, st)
        return con.apply(self, tref, vals, st, n)

    def this_ref(self, this, st):
        if this is None:
            return None
        if isinstance(this, LObj):
            return this.ref
        if isinstance(this, LHeap) and isinstance(this.shape, SEnt):
            return self.sub(this.cls, this.field, this.ref)
        if isinstance(this, LVal):
            v = self.read(this, st)
            if z3.is_expr(v):
                return v
            if isinstance(v, LObj):
                return v.ref
        if isinstance(this, Ptr):
            return self.this_ref(this.target, st)
        raise Unsupported('object expression %r' % type(this).__name__)

    # ------------------------------------------------------------ statements
    def block(self, n, st, retref=False):
        """A function body."""
        self._retref = getattr(self, '_retref', [])
        self._retref.append(retref)
        try:
            return self.stmt(n, st)
        finally:
            self._retref.pop()

    def stmt(self, n, st):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m:
            return m(n, st)
        if k is None:
            return [(OK, None, st)]
        out = []
        self.directly(n)
        for v, s in self.ev(n, st):
            if not isinstance(v, (Exc, LVal)) and self.needs_dtor(v):
                out += self.destroy(self.newcell(s, v), OK, None, s)
                continue
            out.append((THROW, v, s) if isinstance(v, Exc) else (OK, None, s))
        return out

    def seq(self, stmts, st):
        acc = [(OK, None, st)]
        for x in stmts:
            nxt = []
            for o in acc:
                if o[0] == OK:
                    nxt += self.stmt(x, o[2])
                else:
                    nxt.append(o)
            acc = nxt
            if not any(o[0] == OK for o in acc):
                break
        return acc

    def scoped(self, st, f):
        """Run f(st) and destroy, in reverse order, the objects it declared."""
        base = len(st.trail)
        out = []
        for kind, data, s in f(st):
            outs = [(kind, data, s)]
            while len(outs[0][2].trail) > base:
                s = outs[0][2]
                cell = s.trail[-1]
                s.trail = s.trail[:-1]
                outs = self.destroy(cell, outs[0][0], outs[0][1], s)
            out += outs
        return out

    def destroy(self, cell, kind, data, s):
        v = s.cells.get(cell.id)
        if isinstance(v, Opaque) and v.kind == 'guard':
            if v.owned:
                for lk in v.locks:
                    self.release(s, lk, None)
            return [(kind, data, s)]
        if isinstance(v, Struct):
            q = v.shape.name
            dt = self.user_dtor(q)
            outs = [(kind, data, s)]
            if dt is not None:
                outs = []
                for r, s2 in self.run_body(dt, cell, [], s, None):
                    if isinstance(r, Exc):
                        self.oblige(s2, 'noexcept.destructor', z3.BoolVal(False), {'TERM'}, dt, 'noexcept')
                    else:
                        outs.append((kind, data, s2))
            # then the members, last one first
            for f, fs in reversed(v.shape.fields):
                nxt = []
                for o in outs:
                    m = o[2].cells[cell.id].get(f)
                    if not self.needs_dtor(m):
                        nxt.append(o)
                        continue
                    c = self.newcell(o[2], m)
                    nxt += self.destroy(c, *o)
                outs = nxt
            return outs
        if isinstance(v, Opaque) and v.kind == 'scope_dtor':
            rs = v.fn(s)
            return [(kind, data, rs)]
        return [(kind, data, s)]

    def user_dtor(self, q):
        for nm in (q + '::~' + last(q),):
            for c in self.prog.funcs.get(nm, []):
                if body_of(c) is not None and not c.get('isImplicit') and not c.get('explicitlyDefaulted') and inner(body_of(c)):
                    return c
        return None

    def needs_dtor(self, v):
        if isinstance(v, Opaque) and v.kind in ('guard', 'scope_dtor'):
            return True
        if isinstance(v, Struct):
            return self.user_dtor(v.shape.name) is not None or any(self.needs_dtor(x) for x in v.vals.values())
        return False

    def cleanup(self, sh):
        """Does destroying a value of this shape run code of the repository?"""
        if isinstance(sh, SStruct):
            return self.user_dtor(sh.name) is not None or any(self.cleanup(f) for _, f in sh.fields)
        if isinstance(sh, SVec):
            return self.cleanup(sh.elem)
        return isinstance(sh, SMap) and self.cleanup(sh.v)

    def own_dtor(self, sh, n):
        """Objects with a destructor must be variables (or whole statements), which destroy them."""
        if self.cleanup(sh) and n['id'] not in self.direct:
            raise Unsupported('temporary with a destructor', n)

    def directly(self, n):
        while n is not None:
            self.direct.add(n['id'])
            ch = inner(n)
            n = ch[0] if len(ch) == 1 and n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr',
                                                        'ParenExpr', 'CXXStaticCastExpr') else None

    def s_CompoundStmt(self, n, st):
        return self.scoped(st, lambda s: self.seq(inner(n), s))

    def s_NullStmt(self, n, st):
        return [(OK, None, st)]

    def s_AttributedStmt(self, n, st):
        return self.stmt([c for c in inner(n) if not c['kind'].endswith('Attr')][-1], st)

    def s_DeclStmt(self, n, st):
        acc = [(OK, None, st)]
        for d in inner(n):
            nxt = []
            for o in acc:
                if o[0] != OK:
                    nxt.append(o)
                else:
                    nxt += self.declare(d, o[2])
            acc = nxt
        return acc

    def declare(self, d, st):
        k = d['kind']
        if k in ('UsingEnumDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'TypedefDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'EnumDecl', 'UsingShadowDecl'):
            return [(OK, None, st)]
        if k == 'DecompositionDecl':
            return self.declare_decomposition(d, st)
        if k != 'VarDecl':
            raise Unsupported('declaration ' + k, d)
        if d.get('storageClass') == 'static' and not d.get('constexpr') and 'const' not in d['type']['qualType'].split():
            raise Unsupported('static local', d)
        init = [c for c in inner(d) if not c['kind'].endswith(('Comment', 'Attr'))]
        qt = d['type']['qualType'].rstrip()
        isref = qt.endswith('&')
        if not init:
            sh = self.types.of(d)
            v = self.default(sh, st) if not isinstance(sh, (SInt, SBool)) else st.fresh_val('uninit_' + d['name'], sh)
            st.env = dict(st.env)
            st.env[d['id']] = self.newcell(st, v)
            return [(OK, None, st)]
        out = []
        self.directly(init[0])
        for v, s in self.ev(init[0], st):
            if isinstance(v, Exc):
                out.append((THROW, v, s))
                continue
            s.env = dict(s.env)
            if isref:
                if not isinstance(v, LVal):
                    v = self.newcell(s, v)
                    if self.needs_dtor(s.cells[v.id]):
                        s.trail = s.trail + (v,)
                s.env[d['id']] = v
            else:
                v = self.rv(v, s, d)
                sh = self.try_shape(d)
                if sh is not None and not isinstance(v, Closure):
                    v = self.coerce(v, sh, s)
                elif isinstance(sh, SFn):
                    v = self.coerce(v, sh, s)
                c = self.newcell(s, v)
                s.env[d['id']] = c
                if self.needs_dtor(v):
                    s.trail = s.trail + (c,)
            out.append((OK, None, s))
        return out

    def declare_decomposition(self, d, st):
        ch = inner(d)
        binds = [c for c in ch if c['kind'] == 'BindingDecl']
        init = [c for c in ch if c['kind'] != 'BindingDecl'][0]
        isref = d['type']['qualType'].rstrip().endswith('&')
        out = []
        for v, s in self.ev(init, st):
            if isinstance(v, Exc):
                out.append((THROW, v, s))
                continue
            s.env = dict(s.env)
            lv = v if (isref and isinstance(v, LVal)) else self.newcell(s, self.rv(v, s, d))
            whole = self.read(lv, s, d)
            if isinstance(whole, Struct):
                names = [f for f, _ in whole.shape.fields]
            elif isinstance(whole, Opaque) and hasattr(whole, 'names'):
                names = whole.names
            else:
                raise Unsupported('structured binding', d)
            for b, f in zip(binds, names):
                lv2 = LSub(lv, f)
                if isinstance(lv, LKey) and lv.pair:
                    lv2 = LTemp(lv.key) if f == 'first' else LKey(lv.base, lv.key)
                s.env[b['id']] = lv2
                for c in inner(b):
                    if c['kind'] == 'VarDecl':
                        s.env[c['id']] = lv2
            out.append((OK, None, s))
        return out

    def s_ReturnStmt(self, n, st):
        ch = inner(n)
        if not ch:
            return [(RET, VOID, st)]
        retref = self._retref[-1] if getattr(self, '_retref', None) else False
        out = []
        for v, s in self.ev(ch[0], st):
            if isinstance(v, Exc):
                out.append((THROW, v, s))
            else:
                out.append((RET, v if retref and isinstance(v, LVal) else self.rv(v, s, n), s))
        return out

    def s_BreakStmt(self, n, st):
        return [(BRK, None, st)]

    def s_ContinueStmt(self, n, st):
        return [(CONT, None, st)]

    def s_IfStmt(self, n, st):
        ch = inner(n)
        if n.get('isConstexpr'):
            pass

        def go(s0):
            c = list(ch)
            pre = []
            if n.get('hasInit'):
                pre.append(c.pop(0))
            if n.get('hasVar'):
                pre.append(c.pop(0))
            cond, then = c[0], c[1]
            els = c[2] if n.get('hasElse') and len(c) > 2 else None
            out = []
            for o in self.seq(pre, s0):
                if o[0] != OK:
                    out.append(o)
                    continue
                for v, s in self.ev(cond, o[2]):
                    if isinstance(v, Exc):
                        out.append((THROW, v, s))
                        continue
                    for side, s2 in self.fork(s, self.truth(self.rv(v, s), s, n)):
                        if side:
                            out += self.scoped(s2, lambda q: self.stmt(then, q))
                        elif els is not None:
                            out += self.scoped(s2, lambda q: self.stmt(els, q))
                        else:
                            out.append((OK, None, s2))
            return out
        return self.scoped(st, go)

    def s_SwitchStmt(self, n, st):
        ch = inner(n)
        pre = []
        c = list(ch)
        if n.get('hasInit'):
            pre.append(c.pop(0))
        if n.get('hasVar'):
            pre.append(c.pop(0))
        cond, body = c[0], c[1]
        labels = []   # (case value or None, index of statement)
        flat = []

        def add(x):
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                xs = inner(x)
                if x['kind'] == 'CaseStmt':
                    val = xs[0]
                    v = val.get('value')
                    if v is None:
                        r = self.ev(val, st.copy())
                        labels.append((r[0][0], len(flat)))
                    else:
                        labels.append((z3.IntVal(int(v)), len(flat)))
                else:
                    labels.append((None, len(flat)))
                x = xs[-1]
            flat.append(x)
        for x in inner(body):
            add(x)

        def go(s0):
            out = []
            for o in self.seq(pre, s0):
                if o[0] != OK:
                    out.append(o)
                    continue
                for v, s in self.ev(cond, o[2]):
                    if isinstance(v, Exc):
                        out.append((THROW, v, s))
                        continue
                    v = self.rv(v, s)
                    cur = s
                    dflt = None
                    alive = True
                    for lv, idx in labels:
                        if lv is None:
                            dflt = idx
                            continue
                        if not alive:
                            break
                        br = dict(self.fork(cur, v == lv))
                        if True in br:
                            out += self.seq(flat[idx:], br[True])
                        if False in br:
                            cur = br[False]
                        else:
                            alive = False
                    if alive:
                        if dflt is not None:
                            out += self.seq(flat[dflt:], cur)
                        else:
                            out.append((OK, None, cur))
            return [((OK, None, o[2]) if o[0] == BRK else o) for o in out]
        return self.scoped(st, go)

    def s_CXXTryStmt(self, n, st):
        ch = inner(n)
        body, catches = ch[0], ch[1:]
        out = []
        for kind, data, s in self.stmt(body, st):
            if kind != THROW:
                out.append((kind, data, s))
                continue
            handled = False
            for c in catches:
                cs = inner(c)
                var = cs[0] if cs and cs[0].get('kind') == 'VarDecl' else None
                blk = cs[-1]
                if var is None or self.catches(self.ty(var), data.cls):
                    saved = s.env
                    s.env = dict(s.env)
                    s.env['exc'] = data
                    if var is not None:
                        s.env[var['id']] = LTemp(Opaque('excobj', cls=data.cls, msg=data.msg))
                    out += self.stmt(blk, s)
                    handled = True
                    break
            if not handled:
                out.append((kind, data, s))
        return out

    def catches(self, ty, cls):
        t = last(parse(ty)[0])
        c = last(cls)
        seen = 0
        while True:
            if c == t:
                return True
            q = self.types.simple.get(c)
            if q and self.prog.records[q].get('bases'):
                b = self.prog.records[q]['bases'][0]['type']
                c = last(b.get('desugaredQualType') or b['qualType'])
            elif c in STD_EXC:
                c = STD_EXC[c]
            else:
                return False
            seen += 1
            if seen > 10:
                return False

    def is_exc(self, q):
        return self.catches('std::exception', q)

    def subclass(self, cls, base):
        return self.catches(base, cls)

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n, st):
        ch = inner(n)
        if n.get('hasVar'):
            raise Unsupported('while with a declaration', n)
        cond, body = ch[0], ch[1]
        import loops
        return loops.loop(self, st, n,
                          guard=lambda s: self.ev(cond, s),
                          body=lambda s: self.scoped(s, lambda q: self.stmt(body, q)),
                          step=None)

    def s_DoStmt(self, n, st):
        body, cond = inner(n)[:2]
        import loops
        # first iteration unrolled, then a while loop
        out = []
        for o in self.scoped(st, lambda q: self.stmt(body, q)):
            if o[0] in (OK, CONT):
                out += loops.loop(self, o[2], n, guard=lambda s: self.ev(cond, s),
                                  body=lambda s: self.scoped(s, lambda q: self.stmt(body, q)), step=None)
            elif o[0] == BRK:
                out.append((OK, None, o[2]))
            else:
                out.append(o)
        return out

    def s_ForStmt(self, n, st):
        ch = n['inner']
        init, _, cond, inc, body = ch[0], ch[1], ch[2], ch[3], ch[4]
        import loops

        def go(s0):
            out = []
            for o in (self.stmt(init, s0) if init and init.get('kind') else [(OK, None, s0)]):
                if o[0] != OK:
                    out.append(o)
                    continue
                g = (lambda s: self.ev(cond, s)) if cond and cond.get('kind') else (lambda s: [(z3.BoolVal(True), s)])
                stp = (lambda s: self.ev(inc, s)) if inc and inc.get('kind') else None
                out += loops.loop(self, o[2], n, guard=g, body=lambda s: self.scoped(s, lambda q: self.stmt(body, q)), step=stp)
            return out
        return self.scoped(st, go)

    def s_CXXForRangeStmt(self, n, st):
        ch = n['inner']
        init, rng, var, body = ch[0], ch[1], ch[6], ch[7]
        rvar = inner(rng)[0]
        rinit = [c for c in inner(rvar)][0]
        vdecl = inner(var)[0]
        import loops

        def go(s0):
            out = []
            pre = self.stmt(init, s0) if init and init.get('kind') else [(OK, None, s0)]
            for o in pre:
                if o[0] != OK:
                    out.append(o)
                    continue
                for v, s in self.ev(rinit, o[2]):
                    if isinstance(v, Exc):
                        out.append((THROW, v, s))
                        continue
                    cont = v if isinstance(v, LVal) else self.newcell(s, v)
                    out += loops.each(self, s, n, cont, lambda elem, q: self.range_body(vdecl, elem, body, q))
            return out
        return self.scoped(st, go)

    def range_body(self, vdecl, elem, body, s):
        """Bind the loop variable to the element lvalue and run the body."""
        def go(q):
            q.env = dict(q.env)
            if vdecl['kind'] == 'DecompositionDecl':
                binds = [c for c in inner(vdecl) if c['kind'] == 'BindingDecl']
                isref = vdecl['type']['qualType'].rstrip().endswith('&')
                lv = elem if isref else self.newcell(q, self.read(elem, q))
                whole = self.read(elem, q)
                if not isinstance(whole, Struct):
                    raise Unsupported('structured binding', vdecl)
                for b, (f, _) in zip(binds, whole.shape.fields):
                    if isinstance(lv, LKey) and lv.pair:
                        lv2 = LTemp(lv.key) if f == 'first' else LKey(lv.base, lv.key)
                    else:
                        lv2 = LSub(lv, f)
                    q.env[b['id']] = lv2
                    for c in inner(b):
                        if c['kind'] == 'VarDecl':
                            q.env[c['id']] = lv2
            elif vdecl['type']['qualType'].rstrip().endswith('&'):
                q.env[vdecl['id']] = elem
            else:
                q.env[vdecl['id']] = self.newcell(q, self.read(elem, q))
            return self.stmt(body, q)
        return self.scoped(s, go)


STD_EXC = {'runtime_error': 'exception', 'logic_error': 'exception', 'system_error': 'runtime_error', 'out_of_range': 'logic_error',
           'invalid_argument': 'logic_error', 'bad_function_call': 'exception', 'bad_weak_ptr': 'exception', 'overflow_error': 'runtime_error',
           'length_error': 'logic_error', 'user_exception': 'exception', 'bad_alloc': 'exception', 'range_error': 'runtime_error'}


def empty_vec(sh, st):
    arrs = [st.fresh('empty', z3.ArraySort(I, l)) for l in sh.elem.leaves()]
    return Vec(sh, z3.IntVal(0), arrs)


def has_quantifier(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def empty_map(sh, st):
    ks = sh.k.leaves()[0]
    return Map(sh, z3.K(ks, z3.BoolVal(False)), z3.IntVal(0), st.fresh('mkeys', z3.ArraySort(I, ks)), st.fresh('mkidx', z3.ArraySort(ks, I)),
               [st.fresh('mval', z3.ArraySort(ks, l)) for l in sh.v.leaves()])
