"""Shapes (C++ type -> SMT leaves), values, lvalues and symbolic state of the deductive verifier."""
import itertools
import re
import z3

Str = z3.DeclareSort('Str')
I, B = z3.IntSort(), z3.BoolSort()
TWO64 = 2 ** 64

_cnt = itertools.count()


_forall = z3.ForAll


def _robust_forall(vs, body, weight=1, qid='', skid='', patterns=[], no_patterns=[]):
    """z3.ForAll that drops triggers the solver cannot use."""
    def ok(p):
        return all(pattern_ok(c) for c in p.children()) if isinstance(p, z3.PatternRef) else pattern_ok(p) and not z3.is_const(p)
    return _forall(vs, body, weight, qid, skid, [p for p in patterns if ok(p)], no_patterns)


z3.ForAll = _robust_forall


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the function is undecided, never a violation."""

    def __init__(self, msg, node=None):
        self.msg = msg
        self.node = node
        line = node.get('_line') if isinstance(node, dict) else None
        super().__init__('%s%s' % (msg, ' (line %s)' % line if line else ''))


# ---------------------------------------------------------------- string literals
_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const('str_%d_%s' % (len(_lits), re.sub(r'\W', '_', s)[:24]), Str)
    return _lits[s]


def is_lit(t):
    return any(t.eq(x) for x in _lits.values())


EMPTY = lit('')
cat = z3.Function('str_cat', Str, Str, Str)
numstr = z3.Function('numstr', I, Str)          # std::to_string / pugixml integer attribute
num_ok = z3.Function('num_ok', Str, B)          # text is a full decimal size_t
num_val = z3.Function('num_val', Str, I)
num_pre = z3.Function('num_prefix_ok', Str, B)  # std::from_chars would accept some prefix
num_preval = z3.Function('num_prefix_val', Str, I)
num_len = z3.Function('num_prefix_len', Str, I)
atol_f = z3.Function('atol', Str, I)
strlen_f = z3.Function('strlen', Str, I)
excmsg = z3.Function('excmsg', I, Str)
Cond = z3.Function('cond_result', I, B)         # what a user condition returns (assumed a function of the callable)
CondThrows = z3.Function('cond_throws', I, B)
alloc_sub = {}


def literal_axioms():
    ls = list(_lits.values())
    out = []
    if len(ls) > 1:
        out.append(z3.Distinct(*ls))
    return out


def string_axioms(used):
    """Axioms for the string functions that occur in `used` (a set of declaration names)."""
    ax = []
    n = z3.Int('ax!n')
    s = z3.Const('ax!s', Str)
    if 'numstr' in used:
        ax.append(z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < TWO64),
                  z3.And(num_ok(numstr(n)), num_val(numstr(n)) == n, numstr(n) != EMPTY)), patterns=[numstr(n)]))
    if used & {'num_ok', 'num_prefix_ok', 'num_prefix_len', 'num_prefix_val', 'num_val'}:
        ax.append(z3.ForAll([s], z3.Implies(num_ok(s), z3.And(num_pre(s), num_preval(s) == num_val(s), 0 <= num_val(s),
                  num_val(s) < TWO64, num_len(s) == strlen_f(s))), patterns=[num_ok(s)]))
        ax.append(z3.ForAll([s], z3.Implies(num_pre(s), z3.And(0 <= num_preval(s), num_preval(s) < TWO64, 0 < num_len(s),
                  num_len(s) <= strlen_f(s), z3.Implies(num_len(s) == strlen_f(s), num_ok(s)))), patterns=[num_pre(s)]))
        ax.append(z3.Not(num_pre(EMPTY)))
    if 'atol' in used:
        ax.append(z3.ForAll([s], z3.And(-2 ** 63 <= atol_f(s), atol_f(s) < 2 ** 63), patterns=[atol_f(s)]))
        ax.append(z3.ForAll([s], z3.Implies(z3.And(num_ok(s), num_val(s) < 2 ** 63), atol_f(s) == num_val(s)), patterns=[atol_f(s)]))
        ax.append(z3.ForAll([s], z3.Implies(z3.And(num_ok(s), num_val(s) >= 2 ** 63), atol_f(s) == 2 ** 63 - 1), patterns=[atol_f(s)]))
    if 'strlen' in used:
        ax.append(z3.ForAll([s], z3.And(strlen_f(s) >= 0, strlen_f(s) < 2 ** 63, (strlen_f(s) == 0) == (s == EMPTY)), patterns=[strlen_f(s)]))
    return ax


# ---------------------------------------------------------------- shapes
class Shape:
    ent = False


class SInt(Shape):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def leaves(self):
        return [I]

    def __repr__(self):
        return 'int'


class SBool(Shape):
    def leaves(self):
        return [B]

    def __repr__(self):
        return 'bool'


class SStr(Shape):
    def leaves(self):
        return [Str]

    def __repr__(self):
        return 'str'


class SFn(Shape):
    def leaves(self):
        return [I]

    def __repr__(self):
        return 'fn'


class SRef(Shape):
    def __init__(self, cls, kind):
        self.cls, self.kind = cls, kind

    def leaves(self):
        return [I]

    def __repr__(self):
        return '%s<%s>' % (self.kind, self.cls)


class SStruct(Shape):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def leaves(self):
        return [l for _, s in self.fields for l in s.leaves()]

    def __repr__(self):
        return self.name


class SVec(Shape):
    def __init__(self, elem, kind='vector'):
        self.elem, self.kind = elem, kind

    def leaves(self):
        return [I] + [z3.ArraySort(I, l) for l in self.elem.leaves()]

    def __repr__(self):
        return 'vec(%r)' % self.elem


class SMap(Shape):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def leaves(self):
        ks = self.k.leaves()[0]
        return [z3.ArraySort(ks, B), I, z3.ArraySort(I, ks), z3.ArraySort(ks, I)] + [z3.ArraySort(ks, l) for l in self.v.leaves()]

    def __repr__(self):
        return 'map(%r,%r)' % (self.k, self.v)


class SEnt(Shape):
    """An embedded object with identity (lives in the heap under its own reference)."""
    ent = True

    def __init__(self, cls):
        self.cls = cls

    def leaves(self):
        return []

    def __repr__(self):
        return 'ent(%s)' % self.cls


class SOpaque(Shape):
    def __init__(self, name):
        self.name = name

    def leaves(self):
        return []

    def __repr__(self):
        return 'opaque(%s)' % self.name


UINT64 = SInt(0, TWO64 - 1)
INT64 = SInt(-2 ** 63, 2 ** 63 - 1)
BOOL, STR, FN = SBool(), SStr(), SFn()
JTHREAD = SStruct('jthread', [('joinable', BOOL), ('stopstate', BOOL)])


# ---------------------------------------------------------------- values
class Value:
    pass


class Struct(Value):
    def __init__(self, shape, vals):
        self.shape, self.vals = shape, vals

    def get(self, f):
        return self.vals[f]

    def set(self, f, v):
        d = dict(self.vals)
        d[f] = v
        return Struct(self.shape, d)


class Vec(Value):
    def __init__(self, shape, n, arrs):
        self.shape, self.n, self.arrs = shape, n, list(arrs)

    def at(self, i):
        return unpack(self.shape.elem, [z3.Select(a, i) for a in self.arrs])

    def put(self, i, v):
        vs = pack(self.shape.elem, v)
        return Vec(self.shape, self.n, [z3.Store(a, i, x) for a, x in zip(self.arrs, vs)])

    def push(self, v):
        w = self.put(self.n, v)
        return Vec(self.shape, simp(self.n + 1), w.arrs)


class Map(Value):
    """unordered_map: domain, mapped leaves, and its (arbitrary) iteration order as ghost leaves."""

    def __init__(self, shape, dom, n, keys, kidx, arrs):
        self.shape, self.dom, self.n, self.keys, self.kidx, self.arrs = shape, dom, n, keys, kidx, list(arrs)

    def val(self, k):
        return unpack(self.shape.v, [z3.Select(a, k) for a in self.arrs])

    def wf(self):
        i = z3.Int('wf!i')
        k = z3.Const('wf!k', self.shape.k.leaves()[0])
        return [self.n >= 0, self.n < 2 ** 60,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(z3.Select(self.dom, z3.Select(self.keys, i)),
                          z3.Select(self.kidx, z3.Select(self.keys, i)) == i)), patterns=[z3.Select(self.keys, i)]),
                z3.ForAll([k], z3.Implies(z3.Select(self.dom, k), z3.And(0 <= z3.Select(self.kidx, k), z3.Select(self.kidx, k) < self.n,
                          z3.Select(self.keys, z3.Select(self.kidx, k)) == k)), patterns=[z3.Select(self.dom, k)])]


class Closure(Value):
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class PyFn(Value):
    """A callable given as a Python function (bind_front, owner_less, ...)."""

    def __init__(self, name, fn=None, data=None):
        self.name, self.fn, self.data = name, fn, data


class Opaque(Value):
    def __init__(self, kind, **d):
        self.kind = kind
        self.__dict__.update(d)


class Iter(Value):
    def __init__(self, cont, idx):
        self.cont, self.idx = cont, idx


class Exc(Value):
    def __init__(self, cls, msg=None, node=None):
        self.cls, self.msg, self.node = cls, msg, node


class NoVal(Value):
    pass


VOID = NoVal()


# ---------------------------------------------------------------- lvalues
class LVal(Value):
    pass


class LCell(LVal):
    def __init__(self, id):
        self.id = id


class LHeap(LVal):
    def __init__(self, cls, ref, field, shape):
        self.cls, self.ref, self.field, self.shape = cls, ref, field, shape


class LObj(LVal):
    """An object with identity."""

    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref


class LSub(LVal):
    def __init__(self, base, field):
        self.base, self.field = base, field


class LIdx(LVal):
    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class LKey(LVal):
    def __init__(self, base, key, pair=False):
        self.base, self.key, self.pair = base, key, pair


class LTemp(LVal):
    def __init__(self, val):
        self.val = val


def simp(t):
    return z3.simplify(t) if z3.is_expr(t) else t


# ---------------------------------------------------------------- pack / unpack
def pack(shape, v):
    if isinstance(shape, (SInt, SBool, SStr, SFn, SRef)):
        if not z3.is_expr(v):
            raise Unsupported('cannot store %r as %r' % (type(v).__name__, shape))
        return [v]
    if isinstance(shape, SStruct):
        out = []
        for f, s in shape.fields:
            out += pack(s, v.vals[f])
        return out
    if isinstance(shape, SVec):
        return [v.n] + list(v.arrs)
    if isinstance(shape, SMap):
        return [v.dom, v.n, v.keys, v.kidx] + list(v.arrs)
    if isinstance(shape, (SOpaque, SEnt)):
        return []
    raise Unsupported('pack %r' % shape)


def unpack(shape, ts):
    v, rest = _unpack(shape, list(ts))
    return v


def _unpack(shape, ts):
    if isinstance(shape, (SInt, SBool, SStr, SFn, SRef)):
        return ts[0], ts[1:]
    if isinstance(shape, SStruct):
        d = {}
        for f, s in shape.fields:
            d[f], ts = _unpack(s, ts)
        return Struct(shape, d), ts
    if isinstance(shape, SVec):
        k = len(shape.elem.leaves())
        return Vec(shape, ts[0], ts[1:1 + k]), ts[1 + k:]
    if isinstance(shape, SMap):
        k = len(shape.v.leaves())
        return Map(shape, ts[0], ts[1], ts[2], ts[3], ts[4:4 + k]), ts[4 + k:]
    if isinstance(shape, SOpaque):
        return Opaque(shape.name), ts
    if isinstance(shape, SEnt):
        return Opaque('ent'), ts
    raise Unsupported('unpack %r' % shape)


def shape_of(v):
    """Shape of a value, when it can be told from the value alone."""
    if isinstance(v, (Struct, Vec, Map)):
        return v.shape
    if z3.is_expr(v):
        if v.sort() == B:
            return BOOL
        if v.sort() == Str:
            return STR
        if v.sort() == I:
            return SInt()
    return None


def veq(shape, a, b):
    """Observable equality of two values of a shape (vectors: length and elements)."""
    if isinstance(shape, SStruct):
        return z3.And(*[veq(s, a.vals[f], b.vals[f]) for f, s in shape.fields]) if shape.fields else z3.BoolVal(True)
    if isinstance(shape, SVec):
        j = z3.Int('veq!%d' % next(_cnt))
        return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), veq(shape.elem, a.at(j), b.at(j)))))
    if isinstance(shape, SMap):
        k = z3.Const('veq!%d' % next(_cnt), shape.k.leaves()[0])
        return z3.ForAll([k], z3.And(z3.Select(a.dom, k) == z3.Select(b.dom, k),
                                     z3.Implies(z3.Select(a.dom, k), veq(shape.v, a.val(k), b.val(k)))))
    if isinstance(shape, (SOpaque, SEnt)):
        return z3.BoolVal(True)
    return a == b


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('pc', 'heap', 'cells', 'held', 'loopvars', 'env', 'trail', 'rcu', 'fnmap', 'cons')

    def __init__(self):
        self.pc = []
        self.heap = {}
        self.cells = {}
        self.held = []
        self.loopvars = ()
        self.env = {}
        self.trail = ()
        self.fnmap = {}
        self.cons = ()      # refs under construction or private to this call (not yet shared)

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.held = list(self.held)
        s.loopvars = self.loopvars
        s.env = dict(self.env)
        s.trail = self.trail
        s.fnmap = dict(self.fnmap)
        s.cons = self.cons
        return s

    def assume(self, *cs):
        for c in cs:
            if z3.is_true(c):
                continue
            self.pc.append(c)
        return self

    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(_cnt))
        if self.loopvars:
            f = z3.Function(n, *([I] * len(self.loopvars) + [sort]))
            return f(*self.loopvars)
        return z3.Const(n, sort)

    def fresh_val(self, name, shape):
        v = unpack(shape, [self.fresh(name, l) for l in shape.leaves()])
        self.assume(*wf_val(shape, v))
        return v


def wf_val(shape, v, depth=0):
    """Facts that hold of every C++ value of the shape (machine ranges, map order well-formedness)."""
    out = []
    if isinstance(shape, SInt):
        if shape.lo is not None:
            out += [v >= shape.lo]
        if shape.hi is not None:
            out += [v <= shape.hi]
    elif isinstance(shape, SFn):
        out += [v >= 0]
    elif isinstance(shape, SRef):
        out += [v >= 0]
    elif isinstance(shape, SStruct):
        for f, s in shape.fields:
            out += wf_val(s, v.vals[f], depth)
    elif isinstance(shape, SVec):
        out += [v.n >= 0, v.n < 2 ** 60]
        if depth < 2:
            j = z3.Int('wfv!%d' % depth)
            inner = wf_val(shape.elem, v.at(j), depth + 1)
            for c in inner:
                pats = [p for p in [find_sel(c, j)] if p is not None and pattern_ok(p)]
                if pats:
                    out.append(z3.ForAll([j], c, patterns=pats))
    elif isinstance(shape, SMap):
        out += v.wf()
        k = z3.Const('wfm!%d' % depth, shape.k.leaves()[0])
        if depth < 2:
            for c in wf_val(shape.v, v.val(k), depth + 1):
                pats = [p for p in [find_sel(c, k)] if p is not None and pattern_ok(p)]
                if pats:
                    out.append(z3.ForAll([k], c, patterns=pats))
    return out


def pattern_ok(t):
    if z3.is_var(t):
        return True
    if not z3.is_app(t) or t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
        return False
    return all(pattern_ok(c) for c in t.children())


def find_sel(t, v):
    """An innermost select(a, v) subterm, to serve as a quantifier pattern."""
    seen = [t]
    while seen:
        x = seen.pop()
        if z3.is_select(x) and x.arg(1).eq(v):
            return x
        if z3.is_app(x):
            seen.extend(x.children())
        elif z3.is_quantifier(x):
            seen.append(x.body())
    return None
