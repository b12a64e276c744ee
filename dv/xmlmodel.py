"""Trusted model of pugixml: a document is a tree of elements with attributes.

A node is an integer: 0 is the null node, a document is the root of its tree, and the i-th child ever appended to p is xkid(p, i).
The state of all trees is kept in four ghost arrays: xN (children of a node), xM (the names of its children), xA (the values of its attributes) and
xH (which attributes it has).  The null node has no children and no attributes, and children are only ever appended."""
import z3
from core import *
from types_ import parse, last

DOC = 'pugi::xml_document'
NAMES = z3.ArraySort(I, Str)
AN, AM = z3.ArraySort(I, I), z3.ArraySort(I, NAMES)
AA, AH = z3.ArraySort(I, z3.ArraySort(Str, Str)), z3.ArraySort(I, z3.ArraySort(Str, B))
xkid = z3.Function('xkid', I, I, I)
xparent = z3.Function('xparent', I, I)
xindex = z3.Function('xindex', I, I)
xdepth = z3.Function('xdepth', I, I)
xch = z3.Function('xch', I, I, NAMES, Str, I)      # (node, number of its children, their names, a name)
NOATTR, NOHAS = z3.K(Str, EMPTY), z3.K(Str, z3.BoolVal(False))


def axioms():
    p, i, j, k, r, n = z3.Ints('xa!p xa!i xa!j xa!k xa!r xa!n')
    a, nm, s = z3.Const('xa!a', NAMES), z3.Const('xa!nm', Str), z3.Const('xa!s', Str)
    c = xch(r, n, a, nm)
    st = z3.Store(a, k, s)
    return [
        z3.ForAll([p, i], z3.And(xkid(p, i) > 0, xparent(xkid(p, i)) == p, xindex(xkid(p, i)) == i, xdepth(xkid(p, i)) == xdepth(p) + 1), patterns=[xkid(p, i)]),
        # child(name): a child of that name, else the null node
        z3.ForAll([r, n, a, nm], z3.Or(c == 0, z3.And(c > 0, xparent(c) == r, xdepth(c) == xdepth(r) + 1, 0 <= xindex(c), xindex(c) < n, z3.Select(a, xindex(c)) == nm)), patterns=[c]),
        # (the first one, as children are appended)
        z3.ForAll([r, n, a, k, s, nm], z3.Implies(z3.And(n == k + 1, 0 <= k), xch(r, n, st, nm) == z3.If(xch(r, k, a, nm) != 0, xch(r, k, a, nm), z3.If(s == nm, xkid(r, k), z3.IntVal(0)))),
                  patterns=[xch(r, n, st, nm)]),
    ]


def child_of(r, n, a, nm):
    n = simp(n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return z3.IntVal(0)
    if z3.is_store(a):
        k, s = a.arg(1), a.arg(2)
        d = simp(n - k)
        if z3.is_int_value(d) and d.as_long() == 1 and z3.is_int_value(simp(k)):
            rest = child_of(r, k, a.arg(0), nm)
            here = xkid(r, k)
            if s.eq(nm):
                last_ = here
            elif is_lit(s) and is_lit(nm):
                last_ = z3.IntVal(0)
            else:
                last_ = z3.If(s == nm, here, z3.IntVal(0))
            if z3.is_int_value(rest):
                return last_
            if rest.decl().name() == 'xkid':
                return rest
    return xch(r, n, a, nm)


def xchild(N, M, r, nm):
    return child_of(r, sel(N, r), sel(M, r), nm)


def path(t):
    """xkid(xkid(b, i), j) -> (b, [i, j])"""
    out = []
    while z3.is_app(t) and t.decl().name() == 'xkid':
        out.append(t.arg(1))
        t = t.arg(0)
    return t, out[::-1]


def different(a, b):
    """The two node terms are structurally different."""
    ba, pa = path(a)
    bb, pb = path(b)
    if not ba.eq(bb):
        return False
    for x, y in zip(pa, pb):
        d = simp(x - y)
        if z3.is_int_value(d) and d.as_long() == 0:
            continue
        return z3.is_int_value(d)
    return len(pa) != len(pb)


def sel(a, k):
    while z3.is_store(a):
        if a.arg(1).eq(k):
            return a.arg(2)
        if not different(a.arg(1), k):
            break
        a = a.arg(0)
    return z3.Select(a, k)


class XAttr(Opaque):
    def __init__(self, node, name):
        super().__init__('xml_attribute')
        self.node, self.name = node, name


class Xml:
    def __init__(self, ex):
        self.ex = ex

    def setup(self):
        ex = self.ex
        if not getattr(ex, 'xml_on', False):
            ex.xml_on = True
            ex.axioms += axioms() + string_axioms({'numstr', 'num_ok', 'strlen'})
            ex.trusted.add('pugixml behaves as modelled in dv/xmlmodel.py')

    def g(self, st, n):
        return self.ex.ghost(st, n)

    def node(self, v, st, bty=''):
        """The node a value denotes, or None."""
        if isinstance(v, LObj):
            return v.ref if v.cls == DOC else None
        if isinstance(v, LHeap) and isinstance(v.shape, SEnt):
            return self.ex.sub(v.cls, v.field, v.ref) if v.shape.cls == DOC else None
        return None

    def is_node_type(self, t):
        return last(parse(t)[0]) in ('xml_node', 'xml_document', 'xml_object_range', 'xml_named_node_iterator')

    def elements(self, v, cont, st, node):
        """Iterating over a node: its children."""
        if isinstance(v, Opaque) and v.kind == 'xml_children':
            ref = v.node
        elif z3.is_expr(v) and v.sort() == I:
            ref = v
        else:
            ref = self.node(v, st)
        if ref is None:
            return None
        self.setup()
        self.null(st)
        N = self.g(st, 'xN')
        n = sel(N, ref)
        st.pc.append(n >= 0)
        return n, lambda i: LTemp(xkid(ref, i))

    def null(self, st):
        """The null node has nothing."""
        f = z3.And(z3.Select(self.g(st, 'xN'), z3.IntVal(0)) == 0, z3.Select(self.g(st, 'xA'), z3.IntVal(0)) == NOATTR)
        if not any(f.eq(c) for c in st.pc):
            st.pc.append(f)
            self.ex.factids.add(f.get_id())
            self.ex.factkeep.append(f)

    def put(self, st, name, k, v):
        self.ex.set_ghost(st, name, z3.Store(self.g(st, name), k, v))

    def method(self, o, name, vs, st, n, bty):
        ex = self.ex
        l = last(parse(bty)[0])
        v = ex.rv(o, st, n) if isinstance(o, LVal) and not isinstance(o, LObj) and not (isinstance(o, LHeap) and isinstance(o.shape, SEnt)) else o
        if isinstance(v, XAttr):
            return self.m_attr(v, name, vs, st, n)
        if isinstance(v, Opaque) and v.kind == 'xml_result':
            if name == 'operator bool':
                return [(v.ok, st)]
            if name == 'description':
                return [(st.fresh('xml_description', Str), st)]
            return None
        ref = self.node(v, st)
        if ref is None:
            if l not in ('xml_node',) or not (z3.is_expr(v) and v.sort() == I):
                return None
            ref = v
        self.setup()
        args = [ex.rv(a, st, n) for a in vs]
        if name in ('children', 'begin') and not args:
            if name == 'children':
                return [(Opaque('xml_children', node=ref), st)]
        if name == 'append_child' and len(args) == 1 and z3.is_expr(args[0]) and args[0].sort() == Str:
            ex.oblige(st, 'safe.xml-node-not-null', ref != 0, {'SAFE'}, n, 'safety')
            st.assume(ref != 0)
            cnt = sel(self.g(st, 'xN'), ref)
            st.assume(cnt >= 0)
            k = xkid(ref, cnt)
            names = sel(self.g(st, 'xM'), ref)
            self.put(st, 'xN', ref, simp(cnt + 1))
            self.put(st, 'xN', k, z3.IntVal(0))
            self.put(st, 'xM', ref, z3.Store(names, simp(cnt), args[0]))
            self.put(st, 'xA', k, NOATTR)
            self.put(st, 'xH', k, NOHAS)
            return [(k, st)]
        if name == 'append_attribute' and len(args) == 1:
            ex.oblige(st, 'safe.xml-node-not-null', ref != 0, {'SAFE'}, n, 'safety')
            st.assume(ref != 0)
            h = sel(self.g(st, 'xH'), ref)
            ex.oblige(st, 'xml.attribute-appended-once', simp(z3.Not(z3.Select(h, args[0]))), {'doc'}, n, 'safety')
            self.put(st, 'xH', ref, z3.Store(h, args[0], z3.BoolVal(True)))
            return [(XAttr(ref, args[0]), st)]
        if name == 'attribute' and len(args) == 1:
            self.null(st)
            return [(XAttr(ref, args[0]), st)]
        if name == 'child' and len(args) == 1:
            self.null(st)
            return [(xchild(self.g(st, 'xN'), self.g(st, 'xM'), ref, args[0]), st)]
        if name == 'first_child' and not args:
            self.null(st)
            return [(z3.If(sel(self.g(st, 'xN'), ref) > 0, xkid(ref, z3.IntVal(0)), z3.IntVal(0)), st)]
        if name == 'next_sibling' and not args:
            self.null(st)
            nx = simp(xindex(ref) + 1)
            return [(z3.If(z3.And(ref > 0, nx < sel(self.g(st, 'xN'), xparent(ref))), xkid(xparent(ref), nx), z3.IntVal(0)), st)]
        if name == 'name' and not args:
            return [(z3.Select(sel(self.g(st, 'xM'), xparent(ref)), xindex(ref)), st)]
        if name == 'empty' and not args:
            return [(ref == 0, st)]
        if name == 'operator bool' and not args:
            return [(ref != 0, st)]
        if name == 'child_value' or name == 'text':
            return None
        if l != 'xml_document' and not isinstance(v, LObj) and not isinstance(v, LHeap):
            return None
        if name == 'reset' and not args:
            self.put(st, 'xN', ref, z3.IntVal(0))
            self.put(st, 'xA', ref, NOATTR)
            self.put(st, 'xH', ref, NOHAS)
            return [(VOID, st)]
        if name == 'save_file':
            ok = st.fresh('saved', B)
            h = ex.C.hooks.get('xml_save')
            if h:
                h(ex, ref, args[0], ok, st, n)
            return [(ok, st)]
        if name == 'load_file':
            for g in ('xN', 'xM', 'xA', 'xH'):
                ex.set_ghost(st, g, st.fresh('loaded_' + g, ex.C.ghosts[g]))
            st.assume(*tree_facts(lambda g: self.g(st, g)))
            ok = st.fresh('loaded', B)
            h = ex.C.hooks.get('xml_load')
            if h:
                h(ex, ref, args[0], ok, st, n)
            return [(Opaque('xml_result', ok=ok), st)]
        return None

    def m_attr(self, a, name, vs, st, n):
        ex = self.ex
        args = [ex.rv(v, st, n) for v in vs]
        A = self.g(st, 'xA')
        cur = z3.Select(sel(A, a.node), a.name)
        if name == 'set_value' and len(args) == 1 and z3.is_expr(args[0]):
            v = args[0]
            if v.sort() == B:
                v = z3.If(v, lit('true'), lit('false'))
            elif v.sort() == I:
                v = numstr(v)
            self.put(st, 'xA', a.node, z3.Store(sel(A, a.node), a.name, v))
            return [(VOID if False else z3.BoolVal(True), st)]
        if name in ('value', 'as_string') and not [x for x in args if not (z3.is_expr(x) and x.eq(EMPTY))]:
            return [(cur, st)]
        if name == 'name':
            return None
        raise Unsupported('xml_attribute::' + name, n)


def tree_facts(g):
    r = z3.Int('xt!r')
    N = g('xN')
    return [z3.ForAll([r], z3.Select(N, r) >= 0, patterns=[z3.Select(N, r)]), z3.Select(N, z3.IntVal(0)) == 0, z3.Select(g('xA'), z3.IntVal(0)) == NOATTR]
