"""Mechanical extraction: clang AST of /repo's current sources -> an indexed program.

Nothing is rewritten: every function body that the verifier interprets is the AST clang-18 built from the
file in /repo's working tree on this run.  What is dropped: comments, attributes, access specifiers.
"""
import json, os, subprocess, hashlib, pickle, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(c)), 'clang++')
INCS = ['', 'PTN_Engine/include', 'PTN_Engine', 'PTN_Engine/ImportExport/include', 'PTN_Engine/ImportExport/XML/src']


class ExtractionError(Exception):
    pass


def source_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'PTN_Engine')):
        for f in files:
            if f.endswith('.cpp'):
                out.append(os.path.join(root, f))
    return sorted(out)


def all_source_text():
    h = hashlib.sha256()
    for root, ds, files in os.walk(os.path.join(REPO, 'PTN_Engine')):
        ds.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp')):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h


def _dump(path, filt):
    cmd = [CLANG, '-std=c++20', '-fsyntax-only', '-w'] + ['-I' + os.path.join(REPO, i) for i in INCS] + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    return _load(p.stdout)


def _load(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        if s[i] != '{':
            j = s.find('\n', i)
            if j < 0:
                return out
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)


class Node(dict):
    __slots__ = ()


FUNK = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
RECK = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')


class TU:
    """One translation unit: ids -> nodes, with parents' qualified names and source lines attached."""

    def __init__(self, path):
        self.path = path
        self.ids = {}

    def index(self, docs):
        self.file = None
        self.line = 0
        for d in docs:
            self.walk(d, '', None)

    def _loc(self, l):
        # clang prints 'file' and 'line' only when they change
        if 'spellingLoc' in l or 'expansionLoc' in l:
            r = None
            for k, v in l.items():
                if k in ('spellingLoc', 'expansionLoc'):
                    self._loc(v)
            return
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']

    def walk(self, n, scope, fn):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if 'loc' in n:
            self._loc(n['loc'])
        if 'range' in n:
            r = n['range']
            b = r.get('begin', {})
            self._loc(b)
            n['_line'] = self.line
            n['_file'] = self.file
            self._loc(r.get('end', {}))
        n['_tu'] = self
        if 'id' in n and k and (k.endswith('Decl') or k == 'LambdaExpr'):
            self.ids[n['id']] = n
        sc = scope
        name = n.get('name')
        if k == 'NamespaceDecl':
            sc = (scope + '::' if scope else '') + (name or '(anon)')
        elif k in RECK:
            nm = name or '(lambda)'
            if k != 'CXXRecordDecl':
                args = [targ(a) for a in n.get('inner', []) if isinstance(a, dict) and a.get('kind') == 'TemplateArgument']
                nm = '%s<%s>' % (nm, ', '.join(args))
            sc = (scope + '::' if scope else '') + nm
            n['_qname'] = sc
        elif k == 'EnumDecl':
            n['_qname'] = (scope + '::' if scope else '') + (name or '')
            sc = n['_qname']
        elif k in FUNK:
            nm = name or ''
            args = [targ(a) for a in n.get('inner', []) if isinstance(a, dict) and a.get('kind') == 'TemplateArgument']
            if args:
                nm = '%s<%s>' % (nm, ', '.join(args))
            n['_qname'] = (scope + '::' if scope else '') + nm
        elif k in ('FieldDecl', 'VarDecl', 'EnumConstantDecl', 'TypeAliasDecl', 'TypedefDecl'):
            n['_qname'] = (scope + '::' if scope else '') + (name or '')
        n['_scope'] = scope
        for c in n.get('inner', []):
            self.walk(c, sc, fn)


def targ(a):
    t = a.get('type')
    if t:
        return t.get('qualType', '?')
    if 'value' in a:
        return str(a['value'])
    return '?'


def body_of(fn):
    for c in fn.get('inner', []):
        if isinstance(c, dict) and c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def params_of(fn):
    return [c for c in fn.get('inner', []) if isinstance(c, dict) and c.get('kind') == 'ParmVarDecl']


class Program:
    def __init__(self):
        self.tus = []
        self.funcs = {}      # qualified name -> [definition nodes]
        self.decls = {}      # qualified name -> [declaration nodes]
        self.records = {}    # qualified name -> record node (complete definition)
        self.fields = {}     # qualified record -> [FieldDecl]
        self.aliases = {}    # simple or qualified alias name -> type string
        self.enums = {}      # enum qname -> {const: value}
        self.globals = {}    # qualified var -> node with initialiser

    def add(self, tu):
        self.tus.append(tu)
        for n in list(tu.ids.values()):
            k = n['kind']
            if k in FUNK:
                q = n['_qname']
                if dependent(n):
                    continue
                self.decls.setdefault(q, []).append(n)
                # out of line definitions of members have the scope of the namespace: fix below
        # member definitions out of line carry parentDeclContextId / previousDecl
        for n in list(tu.ids.values()):
            k = n['kind']
            if k in FUNK and 'previousDecl' in n:
                p = tu.ids.get(n['previousDecl'])
                if p is not None and '_qname' in p:
                    n['_qname'] = p['_qname']
                    n['_scope'] = p['_scope']
                    n['_first'] = p
            if k == 'VarDecl' and 'previousDecl' in n:
                p = tu.ids.get(n['previousDecl'])
                if p is not None:
                    n['_qname'] = p['_qname']
        for n in list(tu.ids.values()):
            k = n['kind']
            if k in FUNK:
                if dependent(n):
                    continue
                if body_of(n) is not None or n.get('explicitlyDefaulted'):
                    q = n['_qname']
                    l = self.funcs.setdefault(q, [])
                    sig = n['type']['qualType']
                    if not any(m['type']['qualType'] == sig for m in l):
                        l.append(n)
                    else:
                        # prefer a definition with a body
                        for i, m in enumerate(l):
                            if m['type']['qualType'] == sig and body_of(m) is None and body_of(n) is not None:
                                l[i] = n
            elif k in RECK and n.get('completeDefinition'):
                if n['_qname'] not in self.records:
                    self.records[n['_qname']] = n
                    fs = [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind') == 'FieldDecl']
                    self.fields[n['_qname']] = fs
                for c in n.get('inner', []):
                    if isinstance(c, dict) and c.get('kind') == 'FieldDecl':
                        c['_record'] = n['_qname']
            elif k in ('TypeAliasDecl', 'TypedefDecl'):
                t = n['type'].get('desugaredQualType') or n['type']['qualType']
                self.aliases.setdefault(n['_qname'], t)
                self.aliases.setdefault(n['name'], t)
            elif k == 'EnumDecl':
                vals = {}
                nxt = 0
                for c in n.get('inner', []):
                    if isinstance(c, dict) and c.get('kind') == 'EnumConstantDecl':
                        v = None
                        for e in c.get('inner', []):
                            if isinstance(e, dict) and 'value' in e:
                                v = int(e['value'])
                        if v is None:
                            v = nxt
                        vals[c['name']] = v
                        c['_value'] = v
                        nxt = v + 1
                if vals:
                    self.enums[n['_qname']] = vals
            elif k == 'VarDecl' and n.get('inner') and n['_scope'] is not None:
                self.globals.setdefault(n['_qname'], n)

    def define(self, decl):
        """The definition for a declaration node (any TU)."""
        if body_of(decl) is not None:
            return decl
        q = decl['_qname']
        sig = decl['type']['qualType']
        cands = self.funcs.get(q, [])
        for c in cands:
            if c['type']['qualType'] == sig:
                return c
        np = len(params_of(decl))
        c2 = [c for c in cands if len(params_of(c)) == np]
        if len(c2) == 1:
            return c2[0]
        return None


def dependent(n):
    # Uninstantiated template patterns: some parameter or body has a dependent type
    if n.get('_dep') is not None:
        return n['_dep']
    s = n.get('type', {}).get('qualType', '')
    dep = n.get('_pattern', False)
    n['_dep'] = dep
    return dep


def mark_patterns(n, inpat=False):
    """Mark the uninstantiated pattern of each template."""
    if not isinstance(n, dict):
        return
    k = n.get('kind')
    if inpat:
        n['_pattern'] = True
    if k == 'FunctionTemplateDecl':
        first = True
        for c in n.get('inner', []):
            if isinstance(c, dict) and c.get('kind') in FUNK:
                has = any(isinstance(a, dict) and a.get('kind') == 'TemplateArgument' for a in c.get('inner', []))
                mark_patterns(c, inpat or (first and not has))
                first = False
            else:
                mark_patterns(c, inpat)
        return
    if k == 'ClassTemplateDecl':
        for c in n.get('inner', []):
            if isinstance(c, dict) and c.get('kind') == 'CXXRecordDecl':
                mark_patterns(c, True)
            else:
                mark_patterns(c, inpat)
        return
    for c in n.get('inner', []):
        mark_patterns(c, inpat)


def _one(path):
    docs = _dump(path, 'ptne')
    txt = open(path).read()
    m = re.search(r'namespace\s*\{', txt)
    if m or re.search(r'^\s*static\s', txt, re.M):
        docs += _dump(path, '(anonymous')
    # free functions of the global namespace
    have = set()

    def names(n):
        if isinstance(n, dict):
            if n.get('kind') == 'FunctionDecl':
                have.add(n.get('name'))
            for c in n.get('inner', []):
                names(c)
    for d in docs:
        names(d)
    for g in sorted(set(re.findall(r'^(?:[\w:<>,*&]+\s+)+[*&]?(\w+)\s*\([^;{}()]*\)\s*(?:noexcept\s*)?\{', txt, re.M)) - have - {'if', 'while', 'for', 'switch'}):
        docs += [d for d in _dump(path, g) if d.get('kind') == 'FunctionDecl' and d.get('name') == g]
    return path, docs


def load(paths=None, jobs=8):
    paths = paths or source_files()
    cache = os.environ.get('VERIF_AST_CACHE')
    if cache:
        h = all_source_text()
        key = os.path.join(cache, h.hexdigest()[:24] + '.' + hashlib.sha256('|'.join(paths).encode()).hexdigest()[:8])
        if os.path.exists(key):
            res = pickle.load(open(key, 'rb'))
        else:
            with ThreadPoolExecutor(jobs) as ex:
                res = list(ex.map(_one, paths))
            os.makedirs(cache, exist_ok=True)
            pickle.dump(res, open(key, 'wb'))
    else:
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(_one, paths))
    prog = Program()
    for path, docs in res:
        for d in docs:
            mark_patterns(d)
        tu = TU(path)
        tu.index(docs)
        prog.add(tu)
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(time.time() - t)
    for q in sorted(p.funcs):
        print(q, len(p.funcs[q]), [bool(body_of(x)) for x in p.funcs[q]])
    print(sorted(p.records))
    print(p.enums)
