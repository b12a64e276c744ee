"""C++ type strings (as clang prints them) -> shapes."""
from core import *


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(t):
    """-> (base name, [args], is_ref, is_ptr)"""
    t = t.strip()
    ref = ptr = False
    while True:
        o = t
        for suf in ('&&', '&'):
            if t.endswith(suf):
                ref = True
                t = t[:-len(suf)].strip()
        if t.endswith('*'):
            ptr = True
            t = t[:-1].strip()
        for suf in (' const', ' volatile', '__restrict'):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
        for pre in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename ', 'mutable '):
            if t.startswith(pre):
                t = t[len(pre):].strip()
        if t == o:
            break
    if '<' in t and t.endswith('>') and not t.startswith('('):
        i = t.index('<')
        return t[:i], split_args(t[i + 1:-1]), ref, ptr
    return t, [], ref, ptr


INTS = {
    'int': (-2 ** 31, 2 ** 31 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'long long': (-2 ** 63, 2 ** 63 - 1),
    'unsigned int': (0, 2 ** 32 - 1), 'unsigned long': (0, TWO64 - 1), 'unsigned long long': (0, TWO64 - 1),
    'size_t': (0, TWO64 - 1), 'size_type': (0, TWO64 - 1), 'uint64_t': (0, TWO64 - 1), 'uint32_t': (0, 2 ** 32 - 1),
    'int64_t': (-2 ** 63, 2 ** 63 - 1), 'difference_type': (-2 ** 63, 2 ** 63 - 1), 'ptrdiff_t': (-2 ** 63, 2 ** 63 - 1),
    'char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 65535),
    'int32_t': (-2 ** 31, 2 ** 31 - 1), 'unsigned': (0, 2 ** 32 - 1), 'ssize_t': (-2 ** 63, 2 ** 63 - 1),
    'uintmax_t': (0, TWO64 - 1), 'intmax_t': (-2 ** 63, 2 ** 63 - 1),
}
LOCKS = ('mutex', 'shared_mutex', 'recursive_mutex', 'timed_mutex', 'shared_timed_mutex')
OPAQUE = LOCKS + ('condition_variable', 'condition_variable_any', 'random_device', 'mt19937_64', 'mt19937', 'mersenne_twister_engine', 'ostream',
                  'basic_ostream', 'stop_token', 'barrier', 'ratio', 'stop_source')


def last(n):
    # last component of a::b<c::d>::e without template arguments
    d, cur = 0, ''
    for ch in n:
        if ch in '<(':
            d += 1
        if d == 0:
            cur += ch
        if ch in '>)':
            d -= 1
    return cur.split('::')[-1].strip()


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.simple = {}
        for q in prog.records:
            self.simple.setdefault(last(q), q)
        self.enums = {}
        for q in prog.enums:
            self.enums.setdefault(q.split('::')[-1], q)

    def is_entity(self, q):
        r = self.prog.records.get(q)
        if r is None:
            return False
        if q.endswith('Exception'):
            return False
        if r.get('definitionData', {}).get('isPolymorphic'):
            return True
        for c in r.get('inner', []):
            if isinstance(c, dict) and c.get('kind') == 'CXXConstructorDecl' and c.get('explicitlyDeleted'):
                if 'const' in c.get('type', {}).get('qualType', '') and '&' in c['type']['qualType']:
                    return True
        for b in r.get('bases', []):
            n = b['type'].get('desugaredQualType') or b['type']['qualType']
            q2 = self.record(n)
            if q2 and self.is_entity(q2):
                return True
        return False

    def record(self, t):
        n, args, _, _ = parse(t)
        for cand in (t.strip(), 'ptne::' + t.strip(), n, 'ptne::' + n):
            if cand in self.prog.records:
                return cand
        l = last(n)
        if args:
            q = self.simple.get(l)
            for r in self.prog.records:
                if r.startswith('ptne::' + l + '<') and norm(r[6:]) == norm(l + '<' + ', '.join(args) + '>'):
                    return r
            return None
        return self.simple.get(l)

    def shape(self, t, node=None):
        if t in self.cache:
            return self.cache[t]
        s = self._shape(t, node)
        self.cache[t] = s
        return s

    def of(self, node):
        ty = node['type']
        try:
            return self.shape(ty.get('desugaredQualType') or ty['qualType'], node)
        except Unsupported:
            return self.shape(ty['qualType'], node)

    def _shape(self, t, node):
        if '(lambda at' in t:
            return SOpaque('closure')
        n, args, ref, ptr = parse(t)
        if ' ' not in n and last(n) == 'nullptr_t':
            return SRef(None, 'ptr')
        if n.startswith('std::') or n.startswith('__gnu_cxx') or '::' not in n:
            l = last(n)
        else:
            l = last(n)
        if n in INTS:
            return SInt(*INTS[n])
        if n == 'bool':
            return BOOL
        if n == 'void':
            return SOpaque('void')
        if l in INTS and l not in self.simple:
            return SInt(*INTS[l])
        if l in ('basic_string', 'string', 'string_view', 'basic_string_view'):
            return STR
        if n == 'char' and ptr:
            return STR
        if l in ('function', 'move_only_function'):
            return FN
        if l in ('shared_ptr', 'weak_ptr', 'unique_ptr', 'reference_wrapper'):
            rec = self.record(args[0])
            return SRef(rec or args[0], l)
        if l in ('vector', 'deque', 'list'):
            return SVec(self.shape(args[0], node), l)
        if l in ('unordered_map', 'map'):
            return SMap(self.shape(args[0], node), self.shape(args[1], node))
        if l in ('unordered_set', 'set'):
            return SMap(self.shape(args[0], node), SStruct('unit', []))
        if l == 'pair' or l == 'tuple':
            nm = ['first', 'second'] if l == 'pair' else ['get%d' % i for i in range(len(args))]
            return SStruct(l, [(f, self.shape(a, node)) for f, a in zip(nm, args)])
        if l == 'optional':
            return SStruct('optional', [('has', BOOL), ('value', self.shape(args[0], node))])
        if l == 'atomic':
            return self.shape(args[0], node)
        if l in ('duration', 'milliseconds', 'seconds', 'EventLoopSleepDuration', 'SleepDuration'):
            return SInt(-2 ** 63, 2 ** 63 - 1)
        if l in ('jthread', 'thread'):
            return JTHREAD
        if l == 'xml_node':
            return SRef('pugi::xml_node', 'xml_node')
        if l == 'xml_document':
            return SEnt('pugi::xml_document')
        if l == 'errc':
            return SInt(0, 200)
        if l in OPAQUE:
            if ptr:
                return SRef(l, 'ptr')
            return SOpaque(l)
        if l in self.enums and not args:
            return SInt(0, 2 ** 31 - 1)
        q = self.record(t if not (ref or ptr) else n + ('<' + ', '.join(args) + '>' if args else ''))
        if q:
            if self.is_entity(q):
                if ref or ptr:
                    return SRef(q, 'ref')
                return SEnt(q)
            fs = []
            for b in self.prog.records[q].get('bases', []):
                raise Unsupported('value record with a base: ' + q)
            for f in self.prog.fields[q]:
                fs.append((f['name'], self.of(f)))
            return SStruct(q, fs)
        a = self.prog.aliases.get(n) or self.prog.aliases.get('ptne::' + n) or self.prog.aliases.get(l)
        if a and a != t and parse(a)[0] != n:
            return self.shape(a, node)
        raise Unsupported('type ' + t, node)


def norm(s):
    return s.replace(' ', '').replace('std::', '').replace('ptne::', '').replace('void(void)', 'void()')
