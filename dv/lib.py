"""Trusted specifications of the C++ standard library (and of pugixml) used by the code under verification."""
import z3
from core import *
from types_ import parse, last, split_args
import loops
from loops import forall, OK, BRK, CONT, RET, THROW, EXIT

CLASSID = {}


def classid(q):
    return CLASSID.setdefault(q, len(CLASSID) + 1)


str_lt = z3.Function('str_lt', Str, Str, B)


class Lib:
    def __init__(self, ex):
        self.ex = ex
        c = {}
        for n in ('basic_string', 'string', 'basic_string_view', 'string_view'):
            c[n] = self.c_string
        for n in ('vector', 'deque', 'list'):
            c[n] = self.c_vector
        for n in ('unordered_map', 'map', 'unordered_set', 'set'):
            c[n] = self.c_map
        for n in ('shared_ptr', 'weak_ptr', 'unique_ptr', '__shared_ptr', '__weak_ptr'):
            c[n] = self.c_ptr
        c['function'] = self.c_function
        for n in ('unique_lock', 'lock_guard', 'scoped_lock', 'shared_lock'):
            c[n] = self.c_lock
        c['jthread'] = c['thread'] = self.c_thread
        c['pair'] = c['tuple'] = self.c_pair
        for n in ('random_device', 'mersenne_twister_engine', 'owner_less', 'less', 'equal_to', 'hash', 'greater', 'identity', 'basic_ostringstream'):
            c[n] = self.c_opaque
        c['atomic'] = self.c_atomic
        c['duration'] = c['time_point'] = self.c_value
        for n in ('__normal_iterator', '_Node_iterator', '_Node_const_iterator', 'xml_node_iterator', '_Deque_iterator'):
            c[n] = self.c_value
        c['xml_node'] = c['xml_attribute'] = c['xml_parse_result'] = self.c_value
        c['optional'] = self.c_optional
        c['runtime_error'] = c['logic_error'] = c['invalid_argument'] = c['out_of_range'] = self.c_exc
        c['reference_wrapper'] = self.c_value
        c['stop_token'] = self.c_value
        c['initializer_list'] = self.c_value
        self.ctors = c
        import xmlmodel
        self.xml = xmlmodel.Xml(ex)
        self.trusted = set()

    def use(self, name):
        self.ex.trusted.add(name)

    # ------------------------------------------------------------ constructors
    def val(self, v, st, n=None):
        return self.ex.rv(v, st, n)

    def take(self, vs, st, n):
        """First argument's value; an xvalue source is left in its moved-from state."""
        ex = self.ex
        v = vs[0]
        r = ex.rv(v, st, n)
        args = [c for c in n.get('inner', []) if isinstance(c, dict)]
        if isinstance(v, LVal) and not isinstance(v, (LObj, LTemp)) and args and args[0].get('valueCategory') == 'xvalue':
            x = args[0]
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and x.get('inner'):
                x = x['inner'][0]
            if x['kind'] == 'CallExpr':
                self.moved(v, r, st, n)
        return r

    def moved(self, lv, r, st, n):
        ex = self.ex
        if isinstance(r, Vec):
            from exec import empty_vec
            ex.write(lv, empty_vec(r.shape, st), st, n)
        elif z3.is_expr(r) and r.sort() == I:
            # a smart pointer (null), or a function (unspecified)
            ex.write(lv, z3.IntVal(0), st, n)
        elif z3.is_expr(r) and r.sort() == Str:
            ex.write(lv, st.fresh('movedfrom', Str), st, n)

    def c_string(self, t, targs, vs, st, n):
        if not vs:
            return [(EMPTY, st)]
        v = self.take(vs, st, n)
        if isinstance(v, Opaque) and v.kind == 'nullptr':
            return [(EMPTY, st)]
        if z3.is_expr(v) and v.sort() == Str:
            if len(vs) > 1 and not isinstance(self.val(vs[1], st), Opaque):
                raise Unsupported('string constructor', n)
            return [(v, st)]
        raise Unsupported('string constructor', n)

    def c_vector(self, t, targs, vs, st, n):
        from exec import empty_vec
        sh = self.ex.types.shape(t, n)
        if not vs:
            return [(empty_vec(sh, st), st)]
        v = self.take(vs, st, n)
        if isinstance(v, Opaque) and v.kind == 'initlist':
            return [(self.ex.coerce(v, sh, st), st)]
        if isinstance(v, Vec) and len(vs) == 1:
            return [(v, st)]
        if isinstance(v, Iter) and len(vs) >= 2:
            w = self.val(vs[1], st)
            src = self.ex.read(v.cont, st, n)
            if isinstance(src, Vec) and isinstance(w, Iter) and z3.is_int_value(simp(v.idx)) and simp(v.idx).as_long() == 0 and simp(w.idx).eq(simp(src.n)):
                return [(Vec(sh, src.n, src.arrs), st)]
        raise Unsupported('vector constructor', n)

    def c_map(self, t, targs, vs, st, n):
        from exec import empty_map
        sh = self.ex.types.shape(t, n)
        if not vs:
            return [(empty_map(sh, st), st)]
        v = self.take(vs, st, n)
        if isinstance(v, Map):
            return [(v, st)]
        if isinstance(v, Opaque) and v.kind == 'initlist':
            return [(self.map_of(sh, v.items, st), st)]
        if isinstance(v, Iter) and len(vs) >= 2 and isinstance(sh.v, SStruct) and sh.v.name == 'unit':
            w = self.val(vs[1], st)
            src = self.ex.read(v.cont, st, n)
            if isinstance(src, Vec) and isinstance(w, Iter) and z3.is_int_value(simp(v.idx)) and simp(v.idx).as_long() == 0 and simp(w.idx).eq(simp(src.n)):
                return [(self.set_of(sh, src, st), st)]
        raise Unsupported('map constructor', n)

    def set_of(self, sh, src, st):
        """The set of the elements of a vector: as many as the vector has if and only if no two are equal."""
        from exec import empty_map
        m = empty_map(sh, st)
        a = src.arrs[0]
        dom, cnt = st.fresh('sdom', m.dom.sort()), st.fresh('sn', I)
        nm = Map(sh, dom, cnt, m.keys, m.kidx, [])
        i, j, k = z3.Int('so!i'), z3.Int('so!j'), z3.Const('so!k', a.sort().range())
        w = z3.Function('setidx!%d' % next(loops._cnt_()), k.sort(), I)
        at = lambda x: z3.Select(a, x)
        i0, j0 = st.fresh('si', I), st.fresh('sj', I)
        st.assume(*nm.wf())
        st.assume(cnt <= src.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < src.n), z3.Select(dom, at(j))), patterns=[at(j)]),
                  z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= w(k), w(k) < src.n, at(w(k)) == k)), patterns=[z3.Select(dom, k)]),
                  z3.Implies(cnt == src.n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < src.n), at(i) != at(j)), patterns=[z3.MultiPattern(at(i), at(j))])),
                  z3.Implies(cnt != src.n, z3.And(0 <= i0, i0 < j0, j0 < src.n, at(i0) == at(j0))))
        self.use('std::set made of a vector')
        return nm

    def map_of(self, sh, items, st):
        """A map made of a list of pairs: the first pair of a key counts."""
        from exec import empty_map
        m = empty_map(sh, st)
        unit = isinstance(sh.v, SStruct) and sh.v.name == 'unit'
        dom, arrs = m.dom, m.arrs
        for x in reversed(items):
            if unit:
                k, vals = self.ex.coerce(self.ex.rv(x, st), sh.k, st), []
            else:
                if isinstance(x, Opaque) and x.kind == 'initlist' and len(x.items) == 2:
                    k, val = x.items
                elif isinstance(x, Struct):
                    k, val = x.get('first'), x.get('second')
                else:
                    raise Unsupported('map constructor')
                k, vals = self.ex.coerce(k, sh.k, st), pack(sh.v, self.ex.coerce(val, sh.v, st))
            dom = z3.Store(dom, k, z3.BoolVal(True))
            arrs = [z3.Store(a, k, t) for a, t in zip(arrs, vals)]
        nm = Map(sh, dom, st.fresh('mn', I), m.keys, m.kidx, arrs)
        st.assume(*nm.wf())
        if not items:
            st.assume(nm.n == 0)
        return nm

    def c_ptr(self, t, targs, vs, st, n):
        if not vs:
            return [(z3.IntVal(0), st)]
        v = self.take(vs, st, n)
        sh = self.ex.types.shape(t, n)
        v = self.ex.coerce(v, sh, st)
        if z3.is_expr(v):
            return [(v, st)]
        raise Unsupported('smart pointer constructor', n)

    def c_function(self, t, targs, vs, st, n):
        if not vs:
            return [(z3.IntVal(0), st)]
        v = self.take(vs, st, n)
        if isinstance(v, (Closure, PyFn)):
            return [(v, st)]
        if isinstance(v, Opaque) and v.kind == 'nullptr':
            return [(z3.IntVal(0), st)]
        if z3.is_expr(v):
            return [(v, st)]
        raise Unsupported('function constructor', n)

    def c_lock(self, t, targs, vs, st, n):
        l = last(parse(t)[0])
        mode = 'sh' if l == 'shared_lock' else 'ex'
        locks = []
        owned = True
        for v in vs:
            if isinstance(v, Opaque) and v.kind == 'guard':
                return [(v, st)]
            if isinstance(v, Opaque) and v.kind == 'var':
                if 'defer' in v.name:
                    owned = False
                elif 'adopt' in v.name:
                    raise Unsupported('adopt_lock', n)
                elif 'try' in v.name:
                    raise Unsupported('try_to_lock', n)
                continue
            if isinstance(v, LTemp) and isinstance(v.val, Opaque):
                if 'defer' in getattr(v.val, 'name', ''):
                    owned = False
                    continue
                raise Unsupported('lock tag', n)
            if isinstance(v, (LHeap, LCell)):
                locks.append(v)
            else:
                raise Unsupported('lock of %r' % type(v).__name__, n)
        if owned:
            for lk in locks:
                self.ex.acquire(st, lk, mode, n)
        return [(Opaque('guard', locks=locks, mode=mode, owned=owned), st)]

    def c_thread(self, t, targs, vs, st, n):
        if not vs:
            return [(Struct(JTHREAD, {'joinable': z3.BoolVal(False), 'stopstate': z3.BoolVal(False)}), st)]
        v0 = vs[0]
        r = self.val(v0, st)
        if isinstance(r, Struct) and r.shape is JTHREAD:
            return [(r, st)]
        return self.ex.C.spawn(self.ex, last(parse(t)[0]), r, vs[1:], st, n)

    def c_pair(self, t, targs, vs, st, n):
        sh = self.ex.types.shape(t, n)
        if not vs:
            return [(self.ex.default(sh, st), st)]
        if len(vs) == 1:
            v = self.val(vs[0], st)
            return [(self.ex.coerce(v, sh, st), st)]
        return [(Struct(sh, {f: self.ex.coerce(self.val(v, st), s, st) for v, (f, s) in zip(vs, sh.fields)}), st)]

    def c_opaque(self, t, targs, vs, st, n):
        return [(Opaque(last(parse(t)[0])), st)]

    def c_atomic(self, t, targs, vs, st, n):
        sh = self.ex.types.shape(t, n)
        return [(self.ex.coerce(self.val(vs[0], st), sh, st) if vs else self.ex.default(sh, st), st)]

    def c_value(self, t, targs, vs, st, n):
        if not vs:
            return [(self.ex.default(self.ex.types.shape(t, n), st), st)]
        return [(self.val(vs[0], st, n), st)]

    def c_optional(self, t, targs, vs, st, n):
        sh = self.ex.types.shape(t, n)
        if not vs:
            return [(self.ex.default(sh, st), st)]
        v = self.val(vs[0], st)
        if isinstance(v, Struct) and v.shape.name == 'optional':
            return [(v, st)]
        if isinstance(v, Opaque):
            return [(self.ex.default(sh, st), st)]
        return [(Struct(sh, {'has': z3.BoolVal(True), 'value': v}), st)]

    def c_exc(self, t, targs, vs, st, n):
        return [(Opaque('excobj', cls='std::' + last(parse(t)[0]), msg=[self.val(v, st) for v in vs]), st)]

    # ------------------------------------------------------------ free functions
    def call(self, name, ty, vs, st, n):
        ex = self.ex
        m = getattr(self, 'f_' + name, None)
        if m is not None:
            return m(vs, st, n)
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'ssize', 'data') and len(vs) == 1:
            return self.method(vs[0], {'ssize': 'size'}.get(name, name), [], st, n, '')
        if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'transform', 'sort', 'count_if', 'find', 'copy', 'shuffle',
                    'copy_if', 'unique', 'adjacent_find', 'count', 'accumulate', 'remove_if', 'is_sorted', 'equal', 'erase_if', 'stable_sort'):
            # iterator-pair forms over a whole container
            if len(vs) >= 2:
                a, b = self.val(vs[0], st), self.val(vs[1], st)
                if isinstance(a, Iter) and isinstance(b, Iter):
                    cont = a.cont
                    src = ex.read(cont, st, n)
                    if name == 'unique':
                        return self.unique(cont, vs[2:], st, n)
                    if z3.is_int_value(simp(a.idx)) and simp(a.idx).as_long() == 0 and simp(b.idx).eq(simp(src.n)):
                        return self.niebloid(name, ty, [cont] + vs[2:], st, n)
            if name == 'erase_if':
                return self.niebloid(name, ty, vs, st, n)
        raise Unsupported('library function ' + name, n)

    def ptr_target(self, n):
        t = n['type'].get('desugaredQualType') or n['type']['qualType']
        b, args, _, _ = parse(t)
        if not args:
            raise Unsupported('make_* of ' + t, n)
        return self.ex.types.record(args[0]) or args[0]

    def f_make_shared(self, vs, st, n):
        ex = self.ex
        cls = self.ptr_target(n)
        r = ex.alloc(st, cls)
        al = ex.ghost(st, 'alive')
        ex.set_ghost(st, 'alive', z3.Store(al, r, z3.BoolVal(True)))
        ex.set_ghost(st, 'dyntype', z3.Store(ex.ghost(st, 'dyntype'), r, z3.IntVal(classid(cls))))
        if cls not in ex.prog.records:
            return [(r, st)]
        out = []
        for v, s in ex.construct_obj(cls, LObj(cls, r), vs, st, n):
            s.cons = tuple(x for x in s.cons if not x.eq(r))
            out.append((v if isinstance(v, Exc) else r, s))
        return out

    f_make_unique = f_make_shared

    def f_move(self, vs, st, n):
        return [(vs[0], st)]

    f_forward = f_as_const = f_addressof_ = f_ref = f_cref = f_move

    def f_bind_front(self, vs, st, n):
        return [(PyFn('bind_front', data=[v for v in vs]), st)]

    def f_to_string(self, vs, st, n):
        v = self.val(vs[0], st)
        if z3.is_expr(v) and v.sort() == B:
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        self.use('std::to_string')
        return [(numstr(v), st)]

    def f_back_inserter(self, vs, st, n):
        return [(Opaque('back_inserter', target=vs[0]), st)]

    def f_sleep_for(self, vs, st, n):
        self.ex.blocking(st, 'sleep', n)
        return [(VOID, st)]

    f_sleep_until = f_sleep_for

    def f_yield(self, vs, st, n):
        return [(VOID, st)]

    def f_endl(self, vs, st, n):
        return [(vs[0], st)]

    def f_swap(self, vs, st, n):
        a, b = self.val(vs[0], st), self.val(vs[1], st)
        self.ex.write(vs[0], b, st, n)
        self.ex.write(vs[1], a, st, n)
        return [(VOID, st)]

    def f_exchange(self, vs, st, n):
        a = self.val(vs[0], st)
        self.ex.assign(vs[0], vs[1], st, n)
        return [(a, st)]

    def limits(self, n):
        """numeric_limits<T>::min() and max(), T the type of the call."""
        sh = self.ex.types.of(n)
        if not isinstance(sh, SInt):
            raise Unsupported('numeric_limits of ' + self.ex.ty(n), n)
        return sh.lo, sh.hi

    f_lowest = lambda self, vs, st, n: [(z3.IntVal(self.limits(n)[0]), st)]

    def f_max(self, vs, st, n):
        if len(vs) == 0:
            return [(z3.IntVal(self.limits(n)[1]), st)]
        a, b = self.val(vs[0], st), self.val(vs[1], st)
        return [(z3.If(a >= b, a, b), st)]

    def f_min(self, vs, st, n):
        if len(vs) == 0:
            return [(z3.IntVal(self.limits(n)[0]), st)]
        a, b = self.val(vs[0], st), self.val(vs[1], st)
        return [(z3.If(a <= b, a, b), st)]

    def f_make_pair(self, vs, st, n):
        sh = self.ex.types.of(n)
        return [(Struct(sh, {f: self.ex.coerce(self.val(v, st), s, st) for v, (f, s) in zip(vs, sh.fields)}), st)]

    f_make_tuple = f_make_pair

    def f_get(self, vs, st, n):
        # structured-binding access std::get<i>: only through BindingDecl, which is bound directly
        raise Unsupported('std::get', n)

    def f_atol(self, vs, st, n):
        self.use('atol')
        return [(atol_f(self.val(vs[0], st)), st)]

    f_atoll = f_atol

    def f_from_chars(self, vs, st, n):
        """from_chars(first, last, value&) over the whole string."""
        self.use('std::from_chars')
        a, b = self.val(vs[0], st), self.val(vs[1], st)
        if not (z3.is_expr(a) and a.sort() == Str and isinstance(b, Opaque) and b.kind == 'strend' and b.s.eq(a)):
            raise Unsupported('from_chars range', n)
        lv = vs[2]
        old = self.val(lv, st)
        self.ex.write(lv, z3.If(num_pre(a), num_preval(a), old), st, n)
        ec = st.fresh('errc', I)
        st.assume(ec != 0)
        return [(Opaque('from_chars_result', names=['ptr', 'ec'], ptr=Opaque('strpos', s=a, off=z3.If(num_pre(a), num_len(a), z3.IntVal(0))),
                        ec=z3.If(num_pre(a), z3.IntVal(0), ec)), st)]

    def f_this_thread_get_id(self, vs, st, n):
        return [(Opaque('id'), st)]

    def f_max_size(self, vs, st, n):
        return [(z3.IntVal(2 ** 60), st)]

    # ------------------------------------------------------------ algorithms
    def niebloid(self, name, ty, vs, st, n):
        ex = self.ex
        name = name.strip('_')
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'ssize'):
            return self.method(vs[0], name, [], st, n, '')
        cont = vs[0] if vs else None
        # iterator pair
        if vs and not (isinstance(cont, LVal)):
            v0 = cont
            if isinstance(v0, Iter) and len(vs) >= 2:
                src = ex.read(v0.cont, st, n)
                v1 = self.val(vs[1], st)
                if isinstance(v1, Iter) and z3.is_int_value(simp(v0.idx)) and simp(v0.idx).as_long() == 0 and simp(v1.idx).eq(simp(src.n)):
                    return self.niebloid(name, ty, [v0.cont] + vs[2:], st, n)
                raise Unsupported('partial range', n)
            cont = ex.newcell(st, v0)
        if isinstance(cont, LVal) and not isinstance(cont, LObj):
            v0 = ex.read(cont, st, n)
            if isinstance(v0, Iter):
                return self.niebloid(name, ty, [v0] + vs[1:], st, n)
        args = vs[1:]

        def pcall(f, elem, s):
            if len(args) > 1 and args[1] is not None and name in ('find_if', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'find_if_not'):
                rs = ex.call_value(args[1], [elem], s, n)
                return ex.bind(rs, lambda v, s2: ex.call_value(f, [v], s2, n))
            return ex.call_value(f, [elem], s, n)

        def idx_of(elem, s):
            if isinstance(elem, LIdx):
                return elem.idx
            if isinstance(elem, LKey):
                return z3.Select(ex.read(elem.base, s).kidx, elem.key)
            raise Unsupported('iterator position', n)

        if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'find', 'contains'):
            want = name not in ('find_if_not', 'all_of')

            def fn(elem, s):
                out = []
                if name in ('find', 'contains'):
                    rs = [(ex.equal(ex.rv(elem, s), ex.rv(args[0], s), s, n), s)]
                else:
                    rs = pcall(args[0], elem, s)
                for v, s2 in rs:
                    if isinstance(v, Exc):
                        out.append((THROW, v, s2))
                        continue
                    for side, s3 in ex.fork(s2, ex.truth(ex.rv(v, s2), s2, n)):
                        out.append((BRK, idx_of(elem, s3) if name.startswith('find') else None, s3) if side == want else (OK, None, s3))
                return out
            res, _ = loops.each_raw(ex, st, n, cont, fn)
            out = []
            for k, d, s in res:
                if k == THROW:
                    out.append((d, s))
                elif name.startswith('find'):
                    if k == BRK:
                        out.append((Iter(cont, d), s))
                    else:
                        ln, _ = loops.elements(ex, cont, s, n)
                        out.append((Iter(cont, ln), s))
                else:
                    hit = k == BRK
                    v = {'any_of': hit, 'contains': hit, 'none_of': not hit, 'all_of': not hit}[name]
                    out.append((z3.BoolVal(v), s))
            return out
        if name in ('for_each', 'transform', 'copy', 'copy_if', 'count_if', 'count'):
            cnt = ex.newcell(st, z3.IntVal(0)) if name.startswith('count') else None

            def fn(elem, s):
                out = []
                if name == 'count':
                    rs = [(ex.equal(ex.rv(elem, s), ex.rv(args[0], s), s, n), s)]
                elif name == 'copy':
                    rs = [(ex.rv(elem, s), s)]
                elif name == 'copy_if':
                    rs = ex.call_value(args[1], [elem], s, n)
                elif name == 'transform':
                    rs = ex.call_value(args[1], [elem], s, n)
                else:
                    rs = pcall(args[0], elem, s)
                for v, s2 in rs:
                    if isinstance(v, Exc):
                        out.append((THROW, v, s2))
                        continue
                    if name in ('transform', 'copy'):
                        self.append(args[0], ex.rv(v, s2), s2, n)
                    elif name in ('copy_if', 'count_if', 'count'):
                        for side, s3 in ex.fork(s2, ex.truth(ex.rv(v, s2), s2, n)):
                            if side:
                                if name == 'copy_if':
                                    self.append(args[0], ex.rv(elem, s3), s3, n)
                                else:
                                    s3.cells[cnt.id] = simp(s3.cells[cnt.id] + 1)
                            out.append((OK, None, s3))
                        continue
                    out.append((OK, None, s2))
                return out
            res, _ = loops.each_raw(ex, st, n, cont, fn)
            return [((d, s) if k == THROW else (s.cells[cnt.id] if cnt else VOID, s)) for k, d, s in res]
        if name in ('sort', 'stable_sort'):
            return self.sort(cont, args, st, n)
        if name == 'shuffle':
            return self.permute(cont, st, n)
        if name == 'adjacent_find':
            v = ex.read(cont, st, n)
            eq = self.eqfun(args[0] if args else None, v, n)
            r = st.fresh('adj', I)
            i = z3.Int('ai!%d' % next(loops._cnt_()))
            st.assume(0 <= r, r <= v.n, z3.Implies(r < v.n, z3.And(r + 1 < v.n, eq(r, r + 1, st))),
                      forall([i], z3.Implies(z3.And(0 <= i, i + 1 < v.n, i < r), z3.Not(eq(i, i + 1, st))), [z3.Select(v.arrs[0], i)]))
            return [(Iter(cont, r), st)]
        if name == 'reverse':
            raise Unsupported('reverse', n)
        if name == 'erase_if' or name == 'remove_if':
            raise Unsupported(name, n)
        raise Unsupported('algorithm ' + name, n)

    def append(self, ins, v, s, n):
        ins = self.ex.rv(ins, s) if isinstance(ins, LVal) else ins
        if not (isinstance(ins, Opaque) and ins.kind == 'back_inserter'):
            raise Unsupported('output iterator', n)
        self.push(ins.target, v, s, n)

    def push(self, lv, v, s, n):
        ex = self.ex
        w = ex.read(lv, s, n)
        v = ex.coerce(v, w.shape.elem, s)
        ex.write(lv, w.push(v), s, n)

    def permute(self, cont, st, n):
        """Any permutation."""
        ex = self.ex
        v = ex.read(cont, st, n)
        nm = next(loops._cnt_())
        p = loops.fresh_fn(st, 'perm', [I], I)
        q = loops.fresh_fn(st, 'perminv', [I], I)
        arrs = [st.fresh('permuted', a.sort()) for a in v.arrs]
        i = z3.Int('pi!%d' % nm)
        w = Vec(v.shape, v.n, arrs)
        st.assume(forall([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.And(0 <= p(i), p(i) < v.n, q(p(i)) == i, *[z3.Select(b, i) == z3.Select(a, p(i)) for a, b in zip(v.arrs, arrs)])),
                         [z3.Select(arrs[0], i)]))
        st.assume(forall([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.And(0 <= q(i), q(i) < v.n, p(q(i)) == i, *[z3.Select(b, q(i)) == z3.Select(a, i) for a, b in zip(v.arrs, arrs)])),
                         [z3.Select(v.arrs[0], i)]))
        ex.write(cont, w, st, n)
        self.use('std::ranges::shuffle/sort (permutation)')
        return [(VOID, st)]

    def sort(self, cont, args, st, n):
        ex = self.ex
        r = self.permute(cont, st, n)
        v = ex.read(cont, st, n)
        cmp = ex.rv(args[0], st) if args else None
        if cmp is not None and not (isinstance(cmp, Opaque) and cmp.kind in ('owner_less', 'less')):
            raise Unsupported('sort with a user comparison', n)
        sh = v.shape.elem
        if isinstance(sh, (SRef, SInt)):
            le = lambda a, b: a <= b
        elif isinstance(sh, SStr):
            le = lambda a, b: z3.Or(a == b, str_lt(a, b))
            x, y = z3.Const('sl!x', Str), z3.Const('sl!y', Str)
            st.assume(z3.ForAll([x, y], z3.Not(z3.And(str_lt(x, y), str_lt(y, x))), patterns=[str_lt(x, y)]))
        else:
            raise Unsupported('sort of ' + repr(sh), n)
        i, k = z3.Int('si!%d' % next(loops._cnt_())), z3.Int('sk!%d' % next(loops._cnt_()))
        a = v.arrs[0]
        st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i <= k, k < v.n), le(z3.Select(a, i), z3.Select(a, k))),
                            patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, k))]))
        v.sorted = True
        return r

    def eqfun(self, f, v, n):
        ex = self.ex

        def eq(i, j, st):
            if f is None:
                return veq(v.shape.elem, v.at(i), v.at(j))
            s = st.copy()
            npc = len(s.pc)
            rs = ex.call_value(f, [LTemp(v.at(i)), LTemp(v.at(j))], s, n)
            conds = []
            for r, s2 in rs:
                if isinstance(r, Exc):
                    raise Unsupported('comparison that throws', n)
                conds.append(z3.And(*[c for c in s2.pc[npc:] if c.get_id() not in ex.factids], ex.truth(ex.rv(r, s2), s2, n)))
            return simp(z3.Or(*conds))
        return eq

    def unique(self, cont, args, st, n):
        """std::unique over the whole container: how many elements it removes; contents become unspecified."""
        ex = self.ex
        v = ex.read(cont, st, n)
        eq = self.eqfun(args[0] if args else None, v, n)
        r = st.fresh('uniq', I)
        i = z3.Int('ui!%d' % next(loops._cnt_()))
        w = st.fresh('uw', I)
        a = v.arrs[0]
        st.assume(0 <= r, r <= v.n,
                  z3.Implies(r == v.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < v.n), z3.Not(eq(i, i + 1, st))), patterns=[z3.Select(a, i)])),
                  z3.Implies(r < v.n, z3.And(0 <= w, w + 1 < v.n, eq(w, w + 1, st))))
        nv = Vec(v.shape, v.n, [st.fresh('uniqued', x.sort()) for x in v.arrs])
        ex.write(cont, nv, st, n)
        self.use('std::unique')
        return [(Iter(cont, r), st)]

    def elements(self, v, cont, st, node):
        if isinstance(v, Opaque) and v.kind == 'initlist':
            return z3.IntVal(len(v.items)), lambda i: LTemp(v.items[i.as_long()])
        x = self.xml.elements(v, cont, st, node)
        if x is not None:
            return x
        raise Unsupported('iteration over %r' % type(v).__name__, node)

    # ------------------------------------------------------------ std::function
    def call_stdfunction(self, f, vs, st, n):
        return self.ex.C.call_function(self.ex, f, vs, st, n)

    def enumconst(self, r, n):
        nm = r.get('name', '')
        if nm == 'invalid_argument':
            return 22
        if nm == 'result_out_of_range':
            return 34
        raise Unsupported('enumerator ' + nm, n)

    # ------------------------------------------------------------ operators
    def operator(self, name, vs, st, n, tys):
        ex = self.ex
        op = name.replace('operator', '', 1)
        a = vs[0]
        av = ex.rv(a, st, n) if op not in ('=', '[]', '()') or not isinstance(a, LVal) else None
        if op == '()':
            return ex.call_value(a, vs[1:], st, n)
        if op == '->':
            if isinstance(av, Iter):
                from exec import Ptr
                return [(Ptr(self.iter_deref(av, st, n)), st)]
            if z3.is_expr(av):
                ex.oblige(st, 'safe.pointer-not-null', av != 0, {'SAFE'}, n, 'safety')
                st.assume(av != 0)
                t = self.ptr_class(tys[0])
                return [(LObj(t, av), st)]
            if isinstance(av, Opaque):
                return [(av, st)]
            raise Unsupported('operator-> on %r' % type(av).__name__, n)
        if op == '*' and len(vs) == 1:
            if isinstance(av, Iter):
                return [(self.iter_deref(av, st, n), st)]
            if z3.is_expr(av):
                ex.oblige(st, 'safe.pointer-not-null', av != 0, {'SAFE'}, n, 'safety')
                st.assume(av != 0)
                return [(LObj(self.ptr_class(tys[0]), av), st)]
            raise Unsupported('operator* on %r' % type(av).__name__, n)
        if op == '=':
            return self.assign(a, vs[1], st, n, tys)
        if op == '[]':
            v = ex.read(a, st, n) if isinstance(a, LVal) else a
            if isinstance(v, Map):
                k = ex.rv(vs[1], st, n)
                self.ensure_key(a, v, k, st, n)
                return [(LKey(a, k), st)]
            if isinstance(v, Vec):
                i = ex.rv(vs[1], st, n)
                ex.oblige(st, 'safe.index-in-range', z3.And(0 <= i, i < v.n), {'SAFE'}, n, 'safety')
                return [(LIdx(a if isinstance(a, LVal) else LTemp(v), i), st)]
            raise Unsupported('operator[]', n)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            new = ex.incdec(av, d, n)
            if z3.is_expr(av) and isinstance(a, LHeap):
                new = ex.wrap(av + d, a.shape)
            ex.write(a, new, st, n)
            post = len(vs) > 1
            return [(av if post else (new if isinstance(a, LHeap) and 'atomic' in tys[0] else a), st)]
        if op == '!':
            return [(simp(z3.Not(ex.truth(av, st, n))), st)]
        bv = ex.rv(vs[1], st, n) if len(vs) > 1 else None
        if op == '<<':
            # output streams: formatting is not modelled
            return [(a, st)]
        if op in ('==', '!='):
            if isinstance(av, Opaque) and av.kind in ('strpos', 'strend') or isinstance(bv, Opaque) and bv.kind in ('strpos', 'strend'):
                r = self.strpos_eq(av, bv, n)
            else:
                r = ex.equal(av, bv, st, n)
            return [(simp(r if op == '==' else z3.Not(r)), st)]
        if op == '+' and z3.is_expr(av) and z3.is_expr(bv) and (av.sort() == Str or bv.sort() == Str):
            if av.sort() != Str or bv.sort() != Str:
                raise Unsupported('string + char', n)
            return [(cat(av, bv), st)]
        if op == '+=' and z3.is_expr(av) and av.sort() == Str:
            ex.write(a, cat(av, bv), st, n)
            return [(a, st)]
        if op in ('+', '-', '<', '>', '<=', '>='):
            if z3.is_expr(av) and av.sort() == Str:
                raise Unsupported('string order', n)
            return [(ex.arith(op, av, bv, st, n), st)]
        if op in ('+=', '-=', '|=', '&='):
            if z3.is_expr(av) and av.sort() == B:
                b2 = ex.truth(bv, st, n)
                new = {'|=': z3.Or, '&=': z3.And}[op](av, b2)
            else:
                new = ex.arith(op[0], av, bv, st, n)
                if isinstance(a, LHeap):
                    new = ex.wrap(new, a.shape)
            ex.write(a, new, st, n)
            return [(a, st)]
        if op == '<=>':
            raise Unsupported('three-way comparison', n)
        raise Unsupported(name, n)

    def strpos_eq(self, a, b, n):
        if isinstance(a, Opaque) and a.kind == 'strend':
            a, b = b, a
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == 'strpos' and b.kind == 'strend' and a.s.eq(b.s):
            return a.off == strlen_f(a.s)
        raise Unsupported('string position comparison', n)

    def ptr_class(self, t):
        b, args, _, _ = parse(t)
        if args:
            return self.ex.types.record(args[0])
        return None

    def ensure_key(self, lv, m, k, st, n):
        ex = self.ex
        c = simp(z3.Select(m.dom, k))
        if z3.is_true(c):
            return
        dv = pack(m.shape.v, ex.default(m.shape.v, st))
        nm = Map(m.shape, z3.Store(m.dom, k, z3.BoolVal(True)), z3.If(c, m.n, m.n + 1), st.fresh('mkeys', m.keys.sort()), st.fresh('mkidx', m.kidx.sort()),
                 [z3.Store(a, k, z3.If(c, z3.Select(a, k), d)) for a, d in zip(m.arrs, dv)])
        st.assume(*nm.wf())
        ex.write(lv, nm, st, n)

    def assign(self, a, rhs, st, n, tys):
        ex = self.ex
        r = ex.rv(rhs, st, n)
        if isinstance(a, LHeap) and isinstance(a.shape, SStruct) and a.shape is JTHREAD:
            return ex.C.thread_assign(ex, a, r, st, n)
        x = ex.rv(a, st, n) if not isinstance(a, (LObj, LHeap)) else None
        if type(x).__name__ == 'XAttr' and type(r).__name__ != 'XAttr':
            return [(a, s2) for _, s2 in self.xml.m_attr(x, 'set_value', [r], st, n)]
        if isinstance(a, LVal) and not isinstance(a, LObj):
            sh = None
            if isinstance(a, LHeap):
                sh = a.shape
            else:
                try:
                    sh = ex.types.shape(tys[0], n)
                except Unsupported:
                    pass
            if not isinstance(sh, SOpaque):
                r = ex.coerce(r, sh, st)
                ex.write(a, r, st, n)
            # moved-from source
            if isinstance(rhs, LVal) and not isinstance(rhs, (LObj, LTemp)):
                args = [c for c in n.get('inner', []) if isinstance(c, dict)]
                if len(args) > 2:
                    x = args[2]
                    while x['kind'] in ('ImplicitCastExpr', 'ParenExpr') and x.get('inner'):
                        x = x['inner'][0]
                    if x['kind'] == 'CallExpr' and x.get('valueCategory') == 'xvalue':
                        self.moved(rhs, r, st, n)
            return [(a, st)]
        raise Unsupported('assignment', n)

    def iter_deref(self, it, st, n):
        ex = self.ex
        v = ex.read(it.cont, st, n)
        if isinstance(v, Vec):
            ex.oblige(st, 'safe.iterator-dereferenceable', z3.And(0 <= it.idx, it.idx < v.n), {'SAFE'}, n, 'safety')
            return LIdx(it.cont, it.idx)
        if isinstance(v, Map):
            ex.oblige(st, 'safe.iterator-dereferenceable', z3.And(0 <= it.idx, it.idx < v.n), {'SAFE'}, n, 'safety')
            k = z3.Select(v.keys, it.idx)
            if isinstance(v.shape.v, SStruct) and v.shape.v.name == 'unit':
                return LTemp(k)
            return LKey(it.cont, k, True)
        e = self.xml.elements(v, it.cont, st, n)
        if e is not None:
            return e[1](it.idx)
        raise Unsupported('iterator', n)

    def iter_arith(self, op, a, b, st, n):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == '-':
                return simp(a.idx - b.idx)
            if op in ('<', '>', '<=', '>='):
                return {'<': a.idx < b.idx, '>': a.idx > b.idx, '<=': a.idx <= b.idx, '>=': a.idx >= b.idx}[op]
        if isinstance(a, Iter) and z3.is_expr(b):
            return Iter(a.cont, simp(a.idx + b if op == '+' else a.idx - b))
        raise Unsupported('iterator arithmetic', n)

    # ------------------------------------------------------------ member functions
    def method(self, o, name, vs, st, n, bty):
        ex = self.ex
        if isinstance(o, LHeap) and isinstance(o.shape, SOpaque):
            return self.m_opaque_field(o, name, vs, st, n)
        x = self.xml.method(o, name, vs, st, n, bty)
        if x is not None:
            return x
        v = ex.rv(o, st, n) if isinstance(o, LVal) else o
        if isinstance(v, Vec):
            return self.m_vec(o, v, name, vs, st, n)
        if isinstance(v, Map):
            return self.m_map(o, v, name, vs, st, n)
        if isinstance(v, Opaque) and v.kind == 'guard':
            return self.m_guard(o, v, name, vs, st, n)
        if isinstance(v, Struct) and v.shape is JTHREAD:
            return ex.C.thread_method(ex, o, v, name, vs, st, n)
        if isinstance(v, Struct) and v.shape.name == 'optional':
            if name in ('has_value', 'operator bool'):
                return [(v.get('has'), st)]
            if name == 'value':
                return [(v.get('value'), st)]
        if isinstance(v, LObj) and last(parse(bty)[0]) in ('barrier',):
            return self.m_barrier(v, name, vs, st, n)
        if z3.is_expr(v) and v.sort() == Str:
            return self.m_string(o, v, name, vs, st, n)
        if z3.is_expr(v) and v.sort() in (I, B):
            return self.m_scalar(o, v, name, vs, st, n, bty)
        if isinstance(v, (Closure, PyFn)):
            if name == 'operator bool':
                return [(z3.BoolVal(True), st)]
            if name == 'operator()':
                return ex.call_value(v, vs, st, n)
        if isinstance(v, Opaque):
            if v.kind in ('stop_token', 'stoptoken'):
                return ex.C.stop_token(ex, v, name, vs, st, n)
            if v.kind == 'barrier':
                return self.m_barrier(v, name, vs, st, n)
            if v.kind == 'excobj' and name == 'what':
                return [(st.fresh('what', Str), st)]
        if isinstance(v, LObj) and v.cls is None:
            return self.m_barrier(v, name, vs, st, n)
        if isinstance(v, LObj) and v.cls not in ex.prog.records and name in ('arrive_and_wait', 'arrive', 'arrive_and_drop', 'wait'):
            return self.m_barrier(v, name, vs, st, n)
        raise Unsupported('member function %s of %s' % (name, bty[:40]), n)

    def m_opaque_field(self, o, name, vs, st, n):
        ex = self.ex
        k = last(o.shape.name)
        if k in ('mutex', 'shared_mutex', 'recursive_mutex', 'timed_mutex'):
            if name in ('lock', 'lock_shared'):
                ex.acquire(st, o, 'ex' if name == 'lock' else 'sh', n)
                return [(VOID, st)]
            if name in ('unlock', 'unlock_shared'):
                ex.release(st, o, n)
                return [(VOID, st)]
        if k.startswith('condition_variable'):
            if name in ('notify_all', 'notify_one'):
                return ex.C.notify(ex, o, name, st, n)
            if name in ('wait', 'wait_for', 'wait_until'):
                g = ex.rv(vs[0], st)
                own = [lk.cls + '::' + lk.field for lk in g.locks if isinstance(lk, LHeap)]
                ex.oblige(st, 'wait.lock-held', z3.BoolVal(bool(g.owned)), {'ORDER'}, n, 'lockorder')
                ex.blocking(st, 'condition-variable', n, allow=own)
                pred = None
                if name == 'wait' and len(vs) > 1:
                    pred = vs[1]
                if name != 'wait' and len(vs) > 2:
                    pred = vs[2]
                if name != 'wait' and len(vs) > 1:
                    ex.rv(vs[1], st, n)     # a duration held by reference is read while waiting
                    if isinstance(vs[1], LHeap):
                        ex.C.duration_by_ref(ex, vs[1], st, n)
                ex.C.cv_wait(ex, o, name, pred, st, n)
                if pred is None:
                    return [(st.fresh('cv', I), st)]
                out = []
                for r, s in ex.call_value(pred, [], st, n):
                    if isinstance(r, Exc):
                        out.append((r, s))
                    else:
                        r = ex.truth(ex.rv(r, s), s, n)
                        if name == 'wait':
                            s.assume(r)
                        out.append((r, s))
                return out
        raise Unsupported('member function %s of %s' % (name, k), n)

    def m_barrier(self, v, name, vs, st, n):
        ex = self.ex
        if name == 'arrive_and_wait':
            ex.blocking(st, 'barrier', n)
            return ex.C.barrier(ex, v, st, n)
        if name in ('arrive', 'arrive_and_drop'):
            # the arrival itself waits for nobody
            if ex.C.barrier_waiter(ex):
                return [(VOID if name == 'arrive_and_drop' else Opaque('arrival'), st)]
            (_, st), = ex.C.barrier(ex, v, st, n)
            return [(VOID if name == 'arrive_and_drop' else Opaque('arrival'), st)]
        if name == 'wait':
            ex.blocking(st, 'barrier', n)
            return ex.C.barrier(ex, v, st, n) if ex.C.barrier_waiter(ex) else [(VOID, st)]
        raise Unsupported('barrier ' + name, n)

    def m_guard(self, o, v, name, vs, st, n):
        ex = self.ex
        if name in ('unlock', 'lock'):
            if not isinstance(o, LCell):
                raise Unsupported('guard expression', n)
            want = name == 'unlock'
            ex.oblige(st, 'lock.guard-%s-in-right-state' % name, z3.BoolVal(v.owned == want), {'ORDER'}, n, 'lockorder')
            if v.owned == want:
                for lk in v.locks:
                    if want:
                        ex.release(st, lk, n)
                    else:
                        ex.acquire(st, lk, v.mode, n)
            st.cells[o.id] = Opaque('guard', locks=v.locks, mode=v.mode, owned=not want)
            return [(VOID, st)]
        if name in ('owns_lock', 'operator bool'):
            return [(z3.BoolVal(v.owned), st)]
        raise Unsupported('guard ' + name, n)

    def m_vec(self, o, v, name, vs, st, n):
        ex = self.ex
        lv = o if isinstance(o, LVal) else LTemp(v)
        if name in ('begin', 'cbegin'):
            return [(Iter(lv, z3.IntVal(0)), st)]
        if name in ('end', 'cend'):
            return [(Iter(lv, v.n), st)]
        if name == 'empty':
            return [(simp(v.n == 0), st)]
        if name == 'size':
            return [(v.n, st)]
        if name in ('reserve', 'shrink_to_fit'):
            return [(VOID, st)]
        if name in ('push_back', 'emplace_back'):
            sh = v.shape.elem
            if name == 'emplace_back' and len(vs) != 1 or (name == 'emplace_back' and isinstance(sh, SStruct) and not isinstance(ex.rv(vs[0], st), Struct)):
                rs = self.make_elem(sh, vs, st, n)
            else:
                x = vs[0]
                xv = ex.rv(x, st, n)
                rs = [(xv, st)]
            out = []
            for x, s in rs:
                if isinstance(x, Exc):
                    out.append((x, s))
                    continue
                if isinstance(x, Opaque) and x.kind == 'initlist' and isinstance(sh, SStruct):
                    x = Struct(sh, {f: ex.coerce(i, fs, s) for i, (f, fs) in zip(x.items, sh.fields)})
                v2 = ex.read(lv, s, n)
                x = ex.coerce(x, sh, s)
                ex.write(lv, v2.push(x), s, n)
                if v2.shape.kind == 'deque':
                    ex.C.on_deque(ex, lv, 'push_back', x, s, n)
                out.append((LIdx(lv, v2.n), s))
            return out
        if name in ('push_front', 'emplace_front') and v.shape.kind in ('deque', 'list'):
            x = ex.coerce(ex.rv(vs[0], st, n), v.shape.elem, st)
            arrs = []
            k = z3.Int('pf!%d' % next(loops._cnt_()))
            for a, t in zip(v.arrs, pack(v.shape.elem, x)):
                b = st.fresh('pushed', a.sort())
                st.assume(z3.Select(b, 0) == t, z3.ForAll([k], z3.Implies(0 <= k, z3.Select(b, k + 1) == z3.Select(a, k)), patterns=[z3.Select(a, k)]),
                          z3.ForAll([k], z3.Implies(0 < k, z3.Select(b, k) == z3.Select(a, k - 1)), patterns=[z3.Select(b, k)]))
                arrs.append(b)
            ex.write(lv, Vec(v.shape, simp(v.n + 1), arrs), st, n)
            ex.C.on_deque(ex, lv, 'push_front', x, st, n)
            return [(VOID, st)]
        if name in ('pop_back', 'pop_front'):
            ex.oblige(st, 'safe.%s-of-non-empty' % name, v.n > 0, {'SAFE'}, n, 'safety')
            if name == 'pop_back':
                ex.write(lv, Vec(v.shape, simp(v.n - 1), v.arrs), st, n)
            else:
                ex.write(lv, self.removed(v, z3.IntVal(0), st), st, n)
            ex.C.on_deque(ex, lv, name, None, st, n)
            return [(VOID, st)]
        if name in ('back', 'front'):
            ex.oblige(st, 'safe.%s-of-non-empty' % name, v.n > 0, {'SAFE'}, n, 'safety')
            return [(LIdx(lv, simp(v.n - 1) if name == 'back' else z3.IntVal(0)), st)]
        if name == 'clear':
            from exec import empty_vec
            ex.write(lv, empty_vec(v.shape, st), st, n)
            return [(VOID, st)]
        if name == 'at':
            i = ex.rv(vs[0], st, n)
            out = []
            for side, s in ex.fork(st, z3.And(0 <= i, i < v.n)):
                out.append((LIdx(lv, i), s) if side else (Exc('std::out_of_range', None, n), s))
            return out
        if name == 'erase' and len(vs) == 1:
            it = ex.rv(vs[0], st, n)
            ex.oblige(st, 'safe.erase-iterator-valid', z3.And(0 <= it.idx, it.idx < v.n), {'SAFE'}, n, 'safety')
            ex.write(lv, self.removed(v, it.idx, st), st, n)
            return [(Iter(lv, it.idx), st)]
        if name in ('insert', 'emplace') and v.shape.kind != 'deque' and len(vs) in (2, 3):
            pos = ex.rv(vs[0], st, n)
            if not isinstance(pos, Iter):
                raise Unsupported('vector insert', n)
            p = pos.idx
            if len(vs) == 2:
                x = ex.coerce(ex.rv(vs[1], st, n), v.shape.elem, st)
                m, src = z3.IntVal(1), [z3.K(I, t) for t in pack(v.shape.elem, x)]
                if z3.is_int_value(simp(p - v.n)) and simp(p - v.n).as_long() == 0:
                    ex.write(lv, v.push(x), st, n)
                    return [(Iter(lv, p), st)]
                a = z3.IntVal(0)
            else:
                f, l = ex.rv(vs[1], st, n), ex.rv(vs[2], st, n)
                if not (isinstance(f, Iter) and isinstance(l, Iter)):
                    raise Unsupported('vector insert', n)
                w = ex.read(f.cont, st, n)
                if not isinstance(w, Vec) or len(w.arrs) != len(v.arrs) or any(x.sort() != y.sort() for x, y in zip(w.arrs, v.arrs)):
                    raise Unsupported('vector insert of other elements', n)
                a, m, src = f.idx, simp(l.idx - f.idx), w.arrs
                ex.oblige(st, 'safe.insert-range-valid', z3.And(0 <= f.idx, f.idx <= l.idx, l.idx <= w.n), {'SAFE'}, n, 'safety')
            ex.oblige(st, 'safe.insert-iterator-valid', z3.And(0 <= p, p <= v.n), {'SAFE'}, n, 'safety')
            k = z3.Int('in!%d' % next(loops._cnt_()))
            arrs = []
            for o, w in zip(v.arrs, src):
                b = st.fresh('inserted', o.sort())
                st.assume(z3.ForAll([k], z3.Select(b, k) == z3.If(k < p, z3.Select(o, k), z3.If(k < p + m, z3.Select(w, k - p + a), z3.Select(o, k - m))), patterns=[z3.Select(b, k)]),
                          z3.ForAll([k], z3.Select(b, z3.If(k < p, k, k + m)) == z3.Select(o, k), patterns=[z3.Select(o, k)]))
                if z3.is_const_array(w):
                    st.assume(z3.Select(b, p) == w.arg(0))
                else:
                    st.assume(z3.ForAll([k], z3.Implies(z3.And(a <= k, k < a + m), z3.Select(b, k - a + p) == z3.Select(w, k)), patterns=[z3.Select(w, k)]))
                arrs.append(b)
            ex.write(lv, Vec(v.shape, simp(v.n + m), arrs), st, n)
            return [(Iter(lv, p), st)]
        if name == 'swap':
            w = ex.rv(vs[0], st, n)
            ex.write(vs[0], v, st, n)
            ex.write(lv, w, st, n)
            return [(VOID, st)]
        if name == 'operator=':
            return self.assign(lv, vs[0], st, n, [''])
        if name == 'operator[]':
            i = ex.rv(vs[0], st, n)
            ex.oblige(st, 'safe.index-in-range', z3.And(0 <= i, i < v.n), {'SAFE'}, n, 'safety')
            return [(LIdx(lv, i), st)]
        raise Unsupported('vector::' + name, n)

    def removed(self, v, idx, st):
        k = z3.Int('er!%d' % next(loops._cnt_()))
        arrs = []
        for a in v.arrs:
            b = st.fresh('erased', a.sort())
            st.assume(z3.ForAll([k], z3.Select(b, k) == z3.If(k < idx, z3.Select(a, k), z3.Select(a, k + 1)), patterns=[z3.Select(b, k)]),
                      z3.ForAll([k], z3.And(z3.Implies(k < idx, z3.Select(b, k) == z3.Select(a, k)), z3.Implies(k > idx, z3.Select(b, k - 1) == z3.Select(a, k))),
                                patterns=[z3.Select(a, k)]))
            arrs.append(b)
        return Vec(v.shape, simp(v.n - 1), arrs)

    def make_elem(self, sh, vs, st, n):
        ex = self.ex
        if isinstance(sh, SStruct):
            if sh.name in ('pair', 'tuple'):
                return [(Struct(sh, {f: ex.coerce(ex.rv(v, st, n), s, st) for v, (f, s) in zip(vs, sh.fields)}), st)]
            return ex.construct_value(sh.name, sh, vs, st, n)
        if len(vs) == 1:
            return [(ex.coerce(ex.rv(vs[0], st, n), sh, st), st)]
        if not vs:
            return [(ex.default(sh, st), st)]
        raise Unsupported('emplace', n)

    def m_map(self, o, v, name, vs, st, n):
        ex = self.ex
        lv = o if isinstance(o, LVal) else LTemp(v)
        if name in ('contains', 'count'):
            k = ex.rv(vs[0], st, n)
            c = z3.Select(v.dom, k)
            return [(c if name == 'contains' else z3.If(c, z3.IntVal(1), z3.IntVal(0)), st)]
        if name == 'at':
            k = ex.rv(vs[0], st, n)
            out = []
            for side, s in ex.fork(st, z3.Select(v.dom, k)):
                out.append((LKey(lv, k), s) if side else (Exc('std::out_of_range', None, n), s))
            return out
        if name in ('begin', 'cbegin'):
            return [(Iter(lv, z3.IntVal(0)), st)]
        if name in ('end', 'cend'):
            return [(Iter(lv, v.n), st)]
        if name == 'find':
            k = ex.rv(vs[0], st, n)
            return [(Iter(lv, z3.If(z3.Select(v.dom, k), z3.Select(v.kidx, k), v.n)), st)]
        if name == 'empty':
            return [(v.n == 0, st)]
        if name == 'size':
            return [(v.n, st)]
        if name == 'reserve':
            return [(VOID, st)]
        if name == 'clear':
            from exec import empty_map
            ex.write(lv, empty_map(v.shape, st), st, n)
            return [(VOID, st)]
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            unit = isinstance(v.shape.v, SStruct) and v.shape.v.name == 'unit'
            if unit:
                k = ex.rv(vs[0], st, n)
                val = Struct(v.shape.v, {})
            elif len(vs) == 2:
                k, val = ex.rv(vs[0], st, n), ex.rv(vs[1], st, n)
            elif len(vs) == 1:
                p = ex.rv(vs[0], st, n)
                if not isinstance(p, Struct):
                    raise Unsupported('map insert', n)
                k, val = p.get('first'), p.get('second')
            else:
                raise Unsupported('map insert', n)
            had = z3.Select(v.dom, k)
            val = ex.coerce(val, v.shape.v, st)
            vals = pack(v.shape.v, val)
            self.ensure_key(lv, v, k, st, n)
            m2 = ex.read(lv, st, n)
            keep = had if name != 'insert_or_assign' else z3.BoolVal(False)
            m3 = Map(m2.shape, m2.dom, m2.n, m2.keys, m2.kidx, [z3.Store(a, k, z3.If(keep, z3.Select(a, k), t)) for a, t in zip(m2.arrs, vals)])
            ex.write(lv, m3, st, n)
            sh = SStruct('pair', [('first', SOpaque('iter')), ('second', BOOL)])
            return [(Struct(sh, {'first': Iter(lv, z3.Select(m3.kidx, k)), 'second': simp(z3.Not(had))}), st)]
        if name == 'erase' and len(vs) == 1:
            k = ex.rv(vs[0], st, n)
            if isinstance(k, Iter):
                k = z3.Select(v.keys, k.idx)
            had = z3.Select(v.dom, k)
            nm = Map(v.shape, z3.Store(v.dom, k, z3.BoolVal(False)), z3.If(had, v.n - 1, v.n), st.fresh('mkeys', v.keys.sort()),
                     st.fresh('mkidx', v.kidx.sort()), v.arrs)
            st.assume(*nm.wf())
            ex.write(lv, nm, st, n)
            return [(z3.If(had, z3.IntVal(1), z3.IntVal(0)), st)]
        raise Unsupported('map::' + name, n)

    def m_string(self, o, v, name, vs, st, n):
        if name in ('c_str', 'str'):
            return [(v, st)]
        if name == 'data':
            return [(v, st)]
        if name == 'empty':
            return [(v == EMPTY, st)]
        if name in ('size', 'length'):
            return [(strlen_f(v), st)]
        if name == 'operator basic_string_view':
            return [(v, st)]
        if name in ('starts_with', 'ends_with', 'contains', 'compare', 'find', 'rfind') and len(vs) == 1:
            # known: what a string compared with itself, or with nothing, gives
            x = self.ex.rv(vs[0], st)
            if not (z3.is_expr(x) and x.sort() == Str):
                raise Unsupported('string::%s of a character' % name, n)
            if name in ('starts_with', 'ends_with', 'contains'):
                f = z3.Function('str_' + name, Str, Str, B)
                st.assume(z3.Implies(z3.Or(v == x, x == EMPTY), f(v, x)), z3.Implies(z3.And(v == EMPTY, x != EMPTY), z3.Not(f(v, x))))
                return [(f(v, x), st)]
            f = z3.Function('str_' + name, Str, Str, I)
            r = f(v, x)
            if name == 'compare':
                st.assume((r == 0) == (v == x), r >= -2 ** 31, r < 2 ** 31)
            else:
                st.assume(0 <= r, r < TWO64, z3.Implies(v == x, r == 0), z3.Implies(x == EMPTY, r == (0 if name == 'find' else strlen_f(v))),
                          z3.Implies(z3.And(v == EMPTY, x != EMPTY), r == TWO64 - 1))
            return [(r, st)]
        if name == 'substr':
            r = st.fresh('substr', Str)
            a = self.ex.rv(vs[0], st) if vs else z3.IntVal(0)
            if len(vs) > 1 or not (z3.is_int_value(a) and a.as_long() == 0):
                raise Unsupported('substr', n)
            st.assume(z3.Implies(a == 0, r == v))
            return [(r, st)]
        if name == 'append':
            self.ex.write(o, cat(v, self.ex.rv(vs[0], st)), st, n)
            return [(o, st)]
        if name == 'clear':
            self.ex.write(o, EMPTY, st, n)
            return [(VOID, st)]
        raise Unsupported('string::' + name, n)

    def m_scalar(self, o, v, name, vs, st, n, bty):
        ex = self.ex
        l = last(parse(bty)[0])
        if name == 'operator bool':
            return [(ex.truth(v, st, n), st)]
        if l in ('weak_ptr', '__weak_ptr'):
            al = z3.Select(ex.ghost(st, 'alive'), v)
            if name == 'lock':
                return [(z3.If(z3.And(v != 0, al), v, z3.IntVal(0)), st)]
            if name == 'expired':
                return [(z3.Not(z3.And(v != 0, al)), st)]
        if name == 'owner_before':
            return [(v < ex.rv(vs[0], st), st)]
        if name in ('get', 'release') and ('ptr' in l or l == 'reference_wrapper'):
            if name == 'release':
                raise Unsupported('release', n)
            return [(v, st)]
        if name == 'reset':
            if vs:
                raise Unsupported('reset', n)
            ex.write(o, z3.IntVal(0), st, n)
            return [(VOID, st)]
        if name == 'operator=':
            return self.assign(o, vs[0], st, n, [bty])
        if name == 'count':
            return [(v, st)]
        if l.startswith('atomic') or l.startswith('__atomic'):
            if name == 'load' or name.startswith('operator '):
                return [(v, st)]
            if name == 'store':
                ex.assign(o, vs[0], st, n)
                return [(VOID, st)]
            if name == 'exchange':
                ex.assign(o, vs[0], st, n)
                return [(v, st)]
            if name in ('fetch_add', 'fetch_sub'):
                d = ex.rv(vs[0], st)
                sh = o.shape if isinstance(o, LHeap) else UINT64
                ex.write(o, ex.wrap(v + d if name == 'fetch_add' else v - d, sh), st, n)
                return [(v, st)]
            if name == 'compare_exchange_strong':
                e = ex.rv(vs[0], st)
                out = []
                for side, s in ex.fork(st, v == e):
                    if side:
                        ex.assign(o, vs[1], s, n)
                    else:
                        ex.write(vs[0], v, s, n)
                    out.append((z3.BoolVal(side), s))
                return out
        if name.startswith('operator ') or name == 'swap_':
            return [(v, st)]
        raise Unsupported('member function %s of %s' % (name, l), n)
