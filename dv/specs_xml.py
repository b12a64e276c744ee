"""Contracts of export and import: the XML exporter and importer, their base classes, and the option names."""
import re
import z3
from core import *
from contracts import *
from specs_net import enum, all_j
from xmlmodel import xkid, xchild, xdepth, AN, AM, AA, AH, tree_facts
import xmlmodel
from lib import classid

IE, II = 'ptne::IFileExporter', 'ptne::IFileImporter'
XE, XI = 'ptne::XML_FileExporter', 'ptne::XML_FileImporter'
CONV = 'ptne::ActionsThreadOptionConversions'
ENG = 'ptne::PTN_Engine'
PP, TP, AP = 'ptne::PlaceProperties', 'ptne::TransitionProperties', 'ptne::ArcProperties'
TYPES = {'A': ('activationArcs', 'Activation', 'ACTIVATION', 'ActivationPlaces'), 'D': ('destinationArcs', 'Destination', 'DESTINATION', 'DestinationPlaces'),
         'H': ('inhibitorArcs', 'Inhibitor', 'INHIBITOR', 'InhibitorPlaces')}
OPTIONS = ('EVENT_LOOP', 'JOB_QUEUE', 'DETACHED', 'SINGLE_THREAD')


# ---------------------------------------------------------------- ghost logs: vectors of reports
class Log:
    """A ghost vector kept as one ghost per leaf."""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def declare(self, C, types):
        self.shape = SVec(types.shape(self.cls))
        for i, l in enumerate(self.shape.leaves()):
            C.ghosts['%s_%d' % (self.name, i)] = l
            C.ghost_total.add('%s_%d' % (self.name, i))

    def at(self, v):
        return unpack(self.shape, [v.g('%s_%d' % (self.name, i)) for i in range(len(self.shape.leaves()))])

    def set(self, c, vec, asp):
        for i, t in enumerate(pack(self.shape, vec)):
            c.gset('%s_%d' % (self.name, i), t, asp)

    def push(self, c, val, asp):
        self.set(c, self.at(c).push(val), asp)

    def havoc(self, c, asp='frame'):
        for i in range(len(self.shape.leaves())):
            c.gmodifies('%s_%d' % (self.name, i), None, asp)

    def names(self):
        return ['%s_%d' % (self.name, i) for i in range(len(self.shape.leaves()))]


PLOG, TLOG = Log('plog', PP), Log('tlog', TP)                       # what the exporter was given
REPP, REPT = Log('repP', PP), Log('repT', TP)                       # what the net reports
IMPP, IMPT, IMPA = Log('impP', PP), Log('impT', TP), Log('impA', AP)   # what the importer found in the document
CRP, CRT, CRA = Log('crP', PP), Log('crT', TP), Log('crA', AP)      # what was created in the importing net


class Tree:
    def __init__(self, v):
        self.N, self.M, self.A = v.g('xN'), v.g('xM'), v.g('xA')

    def ch(self, r, nm):
        return xchild(self.N, self.M, r, lit(nm))

    def n(self, r):
        return z3.Select(self.N, r)

    def at(self, r, a):
        return z3.Select(z3.Select(self.A, r), lit(a))


def fa(v, leaf, fn, nm='j'):
    j = z3.Int('tj!%d' % next(core_cnt()))
    return forall([j], z3.Implies(z3.And(0 <= j, j < v.n), fn(j)), [z3.Select(v.arrs[leaf], j)])


def truestr(b):
    return z3.If(b, lit('true'), lit('false'))


def rep_places(t, Pn, L):
    """The children of Pn describe the places L."""
    def one(i):
        p, x = L.at(i), xkid(Pn, i)
        return z3.And(t.at(x, 'name') == p.get('name'), t.at(x, 'tokens') == numstr(p.get('initialNumberOfTokens')), t.at(x, 'input') == truestr(p.get('input')),
                      t.at(x, 'onEnterAction') == p.get('onEnterActionFunctionName'), t.at(x, 'onExitAction') == p.get('onExitActionFunctionName'))
    j = z3.Int('tj!rep')
    return [('places-counted', t.n(Pn) == L.n),
            ('places-described', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), one(j)), patterns=[xkid(Pn, j)] + [z3.Select(a, j) for a in L.arrs]))]


def rep_transitions(t, Tn, L):
    j, k = z3.Int('tj!rep'), z3.Int('tk!rep')
    x, p = xkid(Tn, j), L.at(j)
    cn = t.ch(x, 'ActivationConditions')
    names = p.get('additionalConditionsNames')
    out = [('transitions-counted', t.n(Tn) == L.n)]
    pats = [xkid(Tn, j)] + [z3.Select(a, j) for a in L.arrs]
    rng = z3.And(0 <= j, j < L.n)
    out.append(('transitions-described', z3.ForAll([j], z3.Implies(rng, z3.And(
        t.at(t.ch(x, 'Name'), 'value') == p.get('name'), t.at(t.ch(x, 'RequireNoActionsInExecution'), 'value') == truestr(p.get('requireNoActionsInExecution')),
        t.n(cn) == names.n)), patterns=pats)))
    out.append(('transitions-carry-no-arcs', z3.ForAll([j], z3.Implies(rng, z3.And(*[t.n(t.ch(x, TYPES[r][3])) == 0 for r in 'ADH'])), patterns=pats)))
    out.append(('conditions-described', z3.ForAll([j, k], z3.Implies(z3.And(rng, 0 <= k, k < names.n), t.at(xkid(cn, k), 'name') == names.at(k)),
                                                  patterns=[z3.MultiPattern(xkid(cn, k), xkid(Tn, j)), names.at(k)])))
    return out


def arc_start(p, r):
    n = {q: p.get(TYPES[q][0]).n for q in 'ADH'}
    return {'A': z3.IntVal(0), 'D': n['A'], 'H': n['A'] + n['D'], 'end': n['A'] + n['D'] + n['H']}[r]


def rep_arcs(t, An, L, off):
    """The children of An describe the arcs of the transitions L, in order: those of L[i] start at off[i]."""
    j, k = z3.Int('tj!rep'), z3.Int('tk!rep')
    p = L.at(j)
    rng = z3.And(0 <= j, j < L.n)
    o = z3.Select(off, j)
    out = [('arcs-counted', z3.And(t.n(An) == z3.Select(off, L.n), z3.Select(off, z3.IntVal(0)) == 0)),
           ('arcs-consecutive', z3.And(
               z3.ForAll([j], z3.Implies(rng, z3.And(0 <= o, o + arc_start(p, 'end') <= t.n(An))), patterns=[o]),
               z3.ForAll([j, k], z3.Implies(z3.And(rng, k == j + 1), z3.Select(off, k) == o + arc_start(p, 'end')), patterns=[z3.MultiPattern(o, z3.Select(off, k))])))]
    for r in 'ADH':
        v = p.get(TYPES[r][0])
        a = v.at(k)
        x = xkid(An, o + arc_start(p, r) + k)
        out.append(('arcs-%s-described' % r, z3.ForAll([j, k], z3.Implies(z3.And(rng, 0 <= k, k < v.n, strlen_f(a.get('placeName')) >= 0), z3.And(
            t.at(t.ch(x, 'Place'), 'value') == a.get('placeName'), t.at(t.ch(x, 'Transition'), 'value') == a.get('transitionName'),
            t.at(t.ch(x, 'Weight'), 'value') == numstr(a.get('weight')), t.at(t.ch(x, 'Type'), 'value') == lit(TYPES[r][1]))),
            patterns=[a.get('placeName'), a.get('transitionName'), a.get('weight')])))
    return out


def rep(c, v, e):
    """The document of exporter e describes what it was given (v: the state)."""
    ex = c.ex
    ex.lib.xml.setup()
    t = Tree(v)
    doc = ex.sub(XE, 'm_document', e)
    R, Pn, Tn, An = [v.f(XE, f, e) for f in ('m_rootNode', 'm_placesNode', 'm_transitionsNode', 'm_arcsNode')]
    out = [('document-root', z3.And(doc > 0, xdepth(doc) == 0, t.n(z3.IntVal(0)) == 0, z3.Select(t.A, z3.IntVal(0)) == xmlmodel.NOATTR)),
           ('document-sections', z3.And(R != 0, R == t.ch(doc, 'PTN-Engine'), Pn != 0, Pn == t.ch(R, 'Places'), Tn != 0, Tn == t.ch(R, 'Transitions'), An != 0, An == t.ch(R, 'Arcs'))),
           ('option-described', z3.And(t.at(R, 'actionsThreadOption') == v.g('olog'), z3.Select(z3.Select(v.g('xH'), R), lit('actionsThreadOption')) == v.g('optset')))]
    out += rep_places(t, Pn, PLOG.at(v)) + rep_transitions(t, Tn, TLOG.at(v)) + rep_arcs(t, An, TLOG.at(v), v.g('aoff'))
    return out


GHOSTLOG = re.compile(r'^(plog_|tlog_|olog$|optset$|aoff$)')


class WithLogs:
    """A state seen together with the ghost logs as the specification updates them (the body has no ghost code of its own)."""

    def __init__(self, v, logs):
        self.v, self.logs = v, logs

    def g(self, name):
        return self.logs.g(name) if GHOSTLOG.match(name) else self.v.g(name)

    def __getattr__(self, n):
        return getattr(self.v, n)


def keeps(c):
    """Requires and ensures the document invariant."""
    for nm, fo in rep(c, c, c.this):
        c.req(nm, fo, 'doc')
    for g in ('xN', 'xM', 'xA', 'xH'):
        c.gmodifies(g, None, 'any')
    logs = View(c.ex, c.new)
    body = c.mode == 'verify' and not c.ex.unit.startswith(IE)
    for nm, _ in rep(c, c, c.this):
        c.ensures(nm, lambda v, nm=nm: dict(rep(c, WithLogs(v, logs) if body else v, c.this))[nm], 'doc')


def setup(C):
    class T_:
        pass
    types = Types_(C.prog)
    C.ghosts.update({'xN': AN, 'xM': AM, 'xA': AA, 'xH': AH, 'olog': Str, 'optset': B, 'aoff': z3.ArraySort(I, I), 'running': B, 'option': I,
                     'savePath': Str, 'saveOk': B, 'saves': I, 'svN': AN, 'svM': AM, 'svA': AA, 'loadPath': Str, 'loadOk': B, 'imports': I, 'impO': Str, 'crO': I, 'crOset': B,
                     'stage': I})
    C.ghost_total |= {'xN', 'xM', 'xA', 'xH', 'aoff', 'svN', 'svM', 'svA'}
    for l in (PLOG, TLOG, REPP, REPT, IMPP, IMPT, IMPA, CRP, CRT, CRA):
        l.declare(C, types)
    C.overrides = getattr(C, 'overrides', {})

    def facts(ex, v):
        if ex.unit.startswith((XE, XI, IE, II)):
            r = z3.Int('xf!r')
            s1, s2 = ex.sub(XE, 'm_document', r), ex.sub(XI, 'm_document', r)
            logs = {XE: (PLOG, TLOG), IE: (PLOG, TLOG, REPP, REPT)}.get(ex.unit.rsplit('::', 1)[0], ())
            wf = [f for l in logs for f in wf_val(l.shape, l.at(v))]
            return wf + tree_facts(v.g) + [z3.ForAll([r], z3.And(s > 0, xdepth(s) == 0), patterns=[s]) for s in (s1, s2)]
        return []
    C.globals.append(facts)
    conversions(C)
    exporter(C)
    importer(C)


def Types_(prog):
    from types_ import Types
    return Types(prog)


def option_value(c, n):
    for q, v in c.ex.prog.enums.items():
        if q.endswith('ACTIONS_THREAD_OPTION'):
            return v[n] if isinstance(v, dict) else v.index(n)
    raise Unsupported('ACTIONS_THREAD_OPTION')


def opt_str(c, o):
    r = EMPTY
    for n in OPTIONS:
        r = z3.If(o == option_value(c, n), lit(n), r)
    return r


def opt_val(c, s):
    r = z3.IntVal(0)
    for n in OPTIONS:
        r = z3.If(s == lit(n), z3.IntVal(option_value(c, n)), r)
    return r


def conversions(C):
    def to_option(c):
        s, = c.args
        c.throws('PTN_Exception', z3.And(*[s != lit(n) for n in OPTIONS]), 'opt')
        c.ret(opt_val(c, s), None, 'opt')
    C.add(Contract(CONV + '::toACTIONS_THREAD_OPTION', to_option))

    def to_string(c):
        o, = c.args
        c.throws('PTN_Exception', z3.And(*[o != option_value(c, n) for n in OPTIONS]), 'opt')
        c.ret(opt_str(c, o), STR, 'opt')
    C.add(Contract(CONV + '::toString', to_string))


# ---------------------------------------------------------------- export
def exporter(C):
    def option(c):
        s, = c.args
        c.req('option-exported-once', z3.Not(c.g('optset')), 'doc')
        c.gset('olog', s, 'any')
        c.gset('optset', T, 'any')
        keeps(c)

    def place(c):
        PLOG.push(c, c.args[0], 'any')
        keeps(c)

    def transition(c):
        p, = c.args
        n = TLOG.at(c).n
        TLOG.push(c, p, 'any')
        c.gset1('aoff', n + 1, z3.Select(c.g('aoff'), n) + arc_start(p, 'end'), 'any')
        keeps(c)
    for cls, trusted in ((IE, True), (XE, False)):
        C.add(Contract(cls + '::exportActionsThreadOption', option, trusted=trusted))
        C.add(Contract(cls + '::exportPlace', place, trusted=trusted))
        C.add(Contract(cls + '::exportTransition', transition, trusted=trusted))

    def progress(ex, base, s):
        """Loop invariants of exportTransition: the document describes everything given before, and a part of this transition."""
        v, e = View(ex, s), View(ex, ex.ctx.st)
        c = type('Q', (), {'ex': ex})()
        r = dict(rep(c, WithLogs(v, e), ex.ctx.this))
        n, t, p = TLOG.at(e).n, Tree(v), ex.ctx.args[0]
        Tn, An = [v.f(XE, f, ex.ctx.this) for f in ('m_transitionsNode', 'm_arcsNode')]
        o = z3.Select(e.g('aoff'), n)
        r.pop('transitions-counted')
        r.pop('arcs-counted')
        out = list(r.values())
        x = xkid(Tn, n)
        cn = t.ch(x, 'ActivationConditions')
        names = p.get('additionalConditionsNames')
        j = z3.Int('tj!rep')
        out += [t.n(Tn) == n, t.n(Tn) == n + 1, t.at(t.ch(x, 'Name'), 'value') == p.get('name'), t.at(t.ch(x, 'RequireNoActionsInExecution'), 'value') == truestr(p.get('requireNoActionsInExecution')),
                cn != 0, t.n(cn) == 0, t.n(cn) == names.n, z3.And(*[t.n(t.ch(x, TYPES[q][3])) == 0 for q in 'ADH']), z3.Select(e.g('aoff'), z3.IntVal(0)) == 0, t.n(An) == o, t.n(An) >= o,
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t.n(cn)), t.at(xkid(cn, j), 'name') == names.at(j)), patterns=[xkid(cn, j), names.at(j)])]
        b = Tree(View(ex, base))
        out += [z3.And(t.n(x) == b.n(x), z3.Select(t.M, x) == z3.Select(b.M, x)), z3.Select(t.A, t.ch(x, 'Name')) == z3.Select(b.A, b.ch(x, 'Name'))]
        for q in 'ADH':
            w = p.get(TYPES[q][0])
            a = w.at(j)
            y = xkid(An, o + arc_start(p, q) + j)
            out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.n, strlen_f(a.get('placeName')) >= 0, o + arc_start(p, q) + j < t.n(An)), z3.And(
                t.at(t.ch(y, 'Place'), 'value') == a.get('placeName'), t.at(t.ch(y, 'Transition'), 'value') == a.get('transitionName'),
                t.at(t.ch(y, 'Weight'), 'value') == numstr(a.get('weight')), t.at(t.ch(y, 'Type'), 'value') == lit(TYPES[q][1]))), patterns=[a.get('placeName'), a.get('transitionName'), a.get('weight')]))
        return out
    C.loop_invs[XE + '::exportTransition'] = progress
    C.loop_cut = {XE + '::exportTransition'}

    def export_int(c):
        c.req('nothing-exported-yet', z3.And(PLOG.at(c).n == 0, TLOG.at(c).n == 0, z3.Not(c.g('optset'))), 'doc')
        c.req('option-valid', z3.Or(*[c.g('option') == option_value(c, n) for n in OPTIONS]), 'doc')
        c.throws('PTN_Exception', c.g('running'), 'export')
        c.gset('olog', opt_str(c, c.g('option')), 'export')
        c.gset('optset', T, 'export')
        PLOG.set(c, REPP.at(c), 'any')
        TLOG.set(c, REPT.at(c), 'any')
        c.gmodifies('aoff', None, 'any')
        keeps(c)
        c.ensures('every-place-exported-once-in-order', lambda v: veq(PLOG.shape, PLOG.at(v), REPP.at(v)), 'export')
        c.ensures('every-transition-exported-once-in-order', lambda v: veq(TLOG.shape, TLOG.at(v), REPT.at(v)), 'export')
    C.add(Contract(IE + '::_exportInt', export_int))
    u = IE + '::_exportInt'
    C.overrides[(u, ENG + '::isEventLoopRunning')] = Contract('isEventLoopRunning', lambda c: c.ret(c.g('running'), BOOL))
    C.overrides[(u, ENG + '::getActionsThreadOption')] = Contract('getActionsThreadOption', lambda c: c.ret(c.g('option'), None))
    C.overrides[(u, ENG + '::getPlacesProperties')] = Contract('getPlacesProperties', lambda c: c.ret(REPP.at(c), None))
    C.overrides[(u, ENG + '::getTransitionsProperties')] = Contract('getTransitionsProperties', lambda c: c.ret(REPT.at(c), None))

    def inv(ex, base, s):
        v = View(ex, s)
        c = type('Q', (), {'ex': ex})()
        return [f for _, f in rep(c, v, base.env['this'].ref)]
    C.loop_invs[u] = inv

    def save(ex, doc, path, ok, st, n):
        ex.set_ghost(st, 'savePath', path)
        ex.set_ghost(st, 'saveOk', ok)
        ex.set_ghost(st, 'saves', ex.ghost(st, 'saves') + 1)
        for a in 'NMA':
            ex.set_ghost(st, 'sv' + a, ex.ghost(st, 'x' + a))
    C.hooks['xml_save'] = save

    def saved(c):
        c.gmodifies('saveOk', None, 'any')
        c.gset('savePath', c.f(XE, 'm_filePath', c.this), 'save')
        c.gset('saves', c.g('saves') + 1, 'save')
        for a in 'NMA':
            c.gset('sv' + a, c.g('x' + a), 'save')
        c.throw_modifies(('ghost', 'saveOk'), ('ghost', 'savePath'), ('ghost', 'saves'), *[('ghost', 'sv' + a) for a in 'NMA'])
        c.may_throw('PTN_Exception', T, 'save')
        c.ensures('saved-when-it-returns', lambda v: v.g('saveOk'), 'save')
    C.add(Contract(XE + '::saveFile', saved))

    def export(c):
        """Everything the net reports is in the document that is saved under the given path when this returns."""
        path = c.args[1]
        c.req('option-valid', z3.Or(*[c.g('option') == option_value(c, n) for n in OPTIONS]), 'doc')
        logs = PLOG.names() + TLOG.names()
        if c.mode == 'verify':
            # ghost code: an export starts with empty logs
            for st in (c.st, c.new):
                pass
            c.req('ghost-logs-start-empty', z3.And(PLOG.at(c).n == 0, TLOG.at(c).n == 0, z3.Not(c.g('optset')), c.g('olog') == EMPTY, z3.Select(c.g('aoff'), z3.IntVal(0)) == 0), 'doc')
        fields = ('m_rootNode', 'm_placesNode', 'm_transitionsNode', 'm_arcsNode')
        every = [('ghost', g) for g in ('xN', 'xM', 'xA', 'xH', 'olog', 'optset', 'aoff', 'saveOk', 'savePath', 'saves', 'svN', 'svM', 'svA', *logs)] + [(XE, f) for f in fields + ('m_filePath',)]
        c.throw_modifies(*every)
        c.may_throw('PTN_Exception', T, 'save')
        for k, f in every:
            if k == 'ghost':
                c.gmodifies(f, None, 'any')
            else:
                c.modifies(k, f, lambda r: r == c.this, 'any')
        c.ensures('not-while-running', lambda v: z3.Not(c.g('running')), 'export')
        c.ensures('file-saved-under-the-given-path', lambda v: z3.And(v.g('saveOk'), v.g('savePath') == path, v.g('saves') == c.g('saves') + 1), 'save')
        c.ensures('saved-what-was-exported', lambda v: z3.And(*[v.g('sv' + a) == v.g('x' + a) for a in 'NMA']), 'save')
        c.ensures('every-place-exported-once-in-order', lambda v: veq(PLOG.shape, PLOG.at(v), REPP.at(v)), 'export')
        c.ensures('every-transition-exported-once-in-order', lambda v: veq(TLOG.shape, TLOG.at(v), REPT.at(v)), 'export')
        c.ensures('option-exported', lambda v: v.g('olog') == opt_str(c, c.g('option')), 'export')
        for nm, _ in rep(c, c, c.this):
            c.ensures(nm, lambda v, nm=nm: dict(rep(c, v, c.this))[nm], 'doc')
    C.add(Contract(XE + '::_export', export))


# ---------------------------------------------------------------- import
def num_or(s, dflt):
    return z3.If(s == EMPTY, z3.IntVal(dflt), num_val(s))


def log_ranges(L, field, leaf=None):
    return []


def importer(C):
    def names(c):
        c.ex.lib.xml.setup()
        t = Tree(c)
        doc = c.ex.sub(XI, 'm_document', c.this)
        c.new.assume(t.n(z3.IntVal(0)) == 0, z3.Select(t.A, z3.IntVal(0)) == xmlmodel.NOATTR)
        c.define(z3.And(t.n(z3.IntVal(0)) == 0, z3.Select(t.A, z3.IntVal(0)) == xmlmodel.NOATTR))
        return t, t.ch(doc, 'PTN-Engine')

    def each(n, fn, pats):
        j = z3.Int('tj!%d' % next(core_cnt()))
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), fn(j)), patterns=pats(j))

    def places(c):
        t, R = names(c)
        Pn = t.ch(R, 'Places')
        n = t.n(Pn)
        x = lambda j: xkid(Pn, j)
        good = lambda j: z3.Or(t.at(x(j), 'tokens') == EMPTY, num_ok(t.at(x(j), 'tokens')))
        c.throws('PTN_Exception', z3.Not(each(n, good, lambda j: [x(j)])), 'num')
        c.ret_any(PLOG.shape)

        def ok(v):
            r = c.result
            one = lambda j: z3.And(r.at(j).get('name') == t.at(x(j), 'name'), r.at(j).get('initialNumberOfTokens') == num_or(t.at(x(j), 'tokens'), 0),
                                   r.at(j).get('input') == (t.at(x(j), 'input') == lit('true')), r.at(j).get('onEnterActionFunctionName') == t.at(x(j), 'onEnterAction'),
                                   r.at(j).get('onExitActionFunctionName') == t.at(x(j), 'onExitAction'), r.at(j).get('onEnterAction') == 0, r.at(j).get('onExitAction') == 0)
            return z3.And(r.n == n, each(n, one, lambda j: [x(j)] + [z3.Select(a, j) for a in r.arrs]))
        c.ensures('as-in-the-document', ok, 'import')
        L = c.new.fresh_val('log', PLOG.shape) if c.mode == 'verify' else None
        if L is not None:
            hyp = [f for _, f in rep_places(t, Pn, L)]

            def back(v):
                r = c.result
                f = ('name', 'initialNumberOfTokens', 'input', 'onEnterActionFunctionName', 'onExitActionFunctionName')
                return z3.Implies(z3.And(*hyp, *[w for w in wf_val(PLOG.shape, L)]), z3.And(r.n == L.n, each(L.n, lambda j: z3.And(*[r.at(j).get(k) == L.at(j).get(k) for k in f]), lambda j: [x(j)])))
            c.ensures('reads-back-an-exported-document', back, 'import')
    C.add(Contract(XI + '::importPlaces', places))

    def transitions(c):
        t, R = names(c)
        Tn = t.ch(R, 'Transitions')
        n = t.n(Tn)
        x = lambda j: xkid(Tn, j)
        flag = lambda j: t.at(t.ch(x(j), 'RequireNoActionsInExecution'), 'value')
        ch = lambda j, r: t.ch(x(j), TYPES[r][3])
        bad = []

        def good(j):
            out = [z3.Or(flag(j) == lit('true'), flag(j) == lit('false'))]
            for r in 'ADH':
                w = lambda k: t.at(xkid(ch(j, r), k), 'weight')
                out.append(each(t.n(ch(j, r)), lambda k: z3.Or(w(k) == EMPTY, num_ok(w(k))), lambda k: [xkid(ch(j, r), k)]))
            return z3.And(*out)
        c.throws('PTN_Exception', z3.Not(each(n, good, lambda j: [x(j)])), 'num')
        c.ret_any(TLOG.shape)

        def ok(v):
            r = c.result
            pats = lambda j: [x(j)] + [z3.Select(a, j) for a in r.arrs]
            cn = lambda j: t.ch(x(j), 'ActivationConditions')
            one = lambda j: z3.And(r.at(j).get('name') == t.at(t.ch(x(j), 'Name'), 'value'), r.at(j).get('requireNoActionsInExecution') == (flag(j) == lit('true')),
                                   r.at(j).get('additionalConditionsNames').n == t.n(cn(j)))
            return z3.And(r.n == n, each(n, one, pats))
        c.ensures('as-in-the-document', ok, 'import')

        def conds(v):
            r = c.result
            j, k = z3.Int('tj!%d' % next(core_cnt())), z3.Int('tk!%d' % next(core_cnt()))
            cn = t.ch(x(j), 'ActivationConditions')
            a = r.at(j).get('additionalConditionsNames')
            return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < a.n), a.at(k) == t.at(xkid(cn, k), 'name')), patterns=[a.at(k)])
        c.ensures('conditions-as-in-the-document', conds, 'import')

        def arcs(r):
            def f(v):
                res = c.result
                j, k = z3.Int('tj!%d' % next(core_cnt())), z3.Int('tk!%d' % next(core_cnt()))
                a = res.at(j).get(TYPES[r][0])
                e = xkid(ch(j, r), k)
                return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), a.n == t.n(ch(j, r))), patterns=[a.n, x(j)]),
                              z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < a.n), z3.And(
                                  a.at(k).get('placeName') == t.at(e, 'name'), a.at(k).get('weight') == num_or(t.at(e, 'weight'), 1), a.at(k).get('type') == enum(c, TYPES[r][2]))),
                                  patterns=[a.at(k).get('placeName'), a.at(k).get('weight'), a.at(k).get('type')]))
            return f
        for r in 'ADH':
            c.ensures('arcs-%s-as-in-the-document' % r, arcs(r), 'import')
        if c.mode == 'verify':
            L = c.new.fresh_val('log', TLOG.shape)
            hyp = z3.And(*[f for _, f in rep_transitions(t, Tn, L)], *wf_val(TLOG.shape, L))

            def back(v):
                r = c.result
                return z3.Implies(hyp, z3.And(r.n == L.n, each(L.n, lambda j: z3.And(
                    r.at(j).get('name') == L.at(j).get('name'), r.at(j).get('requireNoActionsInExecution') == L.at(j).get('requireNoActionsInExecution'),
                    r.at(j).get('additionalConditionsNames').n == L.at(j).get('additionalConditionsNames').n, *[r.at(j).get(TYPES[q][0]).n == 0 for q in 'ADH']), lambda j: [x(j)])))
            c.ensures('reads-back-an-exported-document', back, 'import')

            def backc(v):
                r = c.result
                j, k = z3.Int('tj!%d' % next(core_cnt())), z3.Int('tk!%d' % next(core_cnt()))
                a, b = r.at(j).get('additionalConditionsNames'), L.at(j).get('additionalConditionsNames')
                return z3.Implies(hyp, z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < b.n), a.at(k) == b.at(k)), patterns=[b.at(k)]))
            c.ensures('reads-back-exported-conditions', backc, 'import')
    C.add(Contract(XI + '::importTransitions', transitions))

    def arcs(c):
        t, R = names(c)
        An = t.ch(R, 'Arcs')
        n = t.n(An)
        x = lambda j: xkid(An, j)
        val = lambda j, nm: t.at(t.ch(x(j), nm), 'value')
        TY = (('Activation', 'ACTIVATION'), ('Bidirectional', 'BIDIRECTIONAL'), ('Destination', 'DESTINATION'), ('Inhibitor', 'INHIBITOR'))
        good = lambda j: z3.And(num_ok(val(j, 'Weight')), z3.Or(*[val(j, 'Type') == lit(s) for s, _ in TY]))
        c.throws('PTN_Exception', z3.Not(each(n, good, lambda j: [x(j)])), 'num')
        c.ret_any(IMPA.shape)

        def one(r, j):
            a = r.at(j)
            return z3.And(a.get('placeName') == val(j, 'Place'), a.get('transitionName') == val(j, 'Transition'), a.get('weight') == num_val(val(j, 'Weight')),
                          *[z3.Implies(val(j, 'Type') == lit(s), a.get('type') == enum(c, e)) for s, e in TY])
        c.ensures('as-in-the-document', lambda v: z3.And(c.result.n == n, each(n, lambda j: one(c.result, j), lambda j: [x(j)] + [z3.Select(a, j) for a in c.result.arrs])), 'import')
        if c.mode == 'verify':
            L = c.new.fresh_val('log', TLOG.shape)
            off = c.new.fresh('off', z3.ArraySort(I, I))
            hyp = z3.And(*[f for _, f in rep_arcs(t, An, L, off)], *wf_val(TLOG.shape, L))

            def back(r):
                def f(v):
                    j, k = z3.Int('tj!%d' % next(core_cnt())), z3.Int('tk!%d' % next(core_cnt()))
                    p = L.at(j)
                    e = p.get(TYPES[r][0])
                    a = c.result.at(z3.Select(off, j) + arc_start(p, r) + k)
                    return z3.Implies(hyp, z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < L.n, 0 <= k, k < e.n, 0 <= e.at(k).get('weight'), e.at(k).get('weight') < TWO64), z3.And(
                        *[a.get(q) == e.at(k).get(q) for q in ('placeName', 'transitionName', 'weight')], a.get('type') == enum(c, TYPES[r][2])))))
                return f
            for r in 'ADH':
                c.ensures('reads-back-exported-%s-arcs' % r, back(r), 'import')
            c.ensures('reads-back-no-other-arcs', lambda v: z3.Implies(hyp, c.result.n == z3.Select(off, L.n)), 'import')
    C.add(Contract(XI + '::importArcs', arcs))

    def option(c):
        t, R = names(c)
        c.ret(t.at(R, 'actionsThreadOption'), STR, 'import')
    C.add(Contract(XI + '::importActionsThreadOption', option))

    # ---- what the base class does with it
    for m, l in (('importPlaces', IMPP), ('importTransitions', IMPT), ('importArcs', IMPA)):
        def g(c, l=l):
            c.may_throw('PTN_Exception', T)
            c.ret(l.at(c), None)
        C.add(Contract(II + '::' + m, g, trusted=True))
    C.add(Contract(II + '::importActionsThreadOption', lambda c: c.ret(c.g('impO'), STR), trusted=True))
    u = II + '::_importInt'

    def over(name, fn):
        C.overrides[(u, ENG + '::' + name)] = Contract(name, fn)
    over('isEventLoopRunning', lambda c: c.ret(c.g('running'), BOOL))
    over('stop', lambda c: c.gset('running', F))

    def step(stage, act):
        def f(c):
            c.req('event-loop-stopped-first', z3.Not(c.g('running')), 'import')
            c.req('in-order', c.g('stage') <= stage, 'import')
            c.gset('stage', z3.IntVal(stage))
            c.may_throw('PTN_Exception', T)
            act(c)
        return f

    def set_option(c):
        c.gset('crO', c.args[0])
        c.gset('crOset', T)
    over('setActionsThreadOption', step(0, set_option))
    over('createPlace', step(1, lambda c: CRP.push(c, c.args[0], 'import')))
    over('createTransition', step(2, lambda c: CRT.push(c, c.args[0], 'import')))
    over('addArc', step(3, lambda c: CRA.push(c, c.args[0], 'import')))

    def import_int(c):
        if c.mode == 'verify':
            c.req('ghost-logs-start-empty', z3.And(CRP.at(c).n == 0, CRT.at(c).n == 0, CRA.at(c).n == 0, z3.Not(c.g('crOset')), c.g('stage') == 0), 'import')
        every = ['running', 'crO', 'crOset', 'stage'] + CRP.names() + CRT.names() + CRA.names()
        c.throw_modifies(*[('ghost', g) for g in every + ['imports']])
        c.may_throw('PTN_Exception', T, 'import')
        for g in every:
            c.gmodifies(g, None, 'any')
        if c.mode == 'apply':
            c.gset('imports', c.g('imports') + 1, 'import')
        for nm, a, b in (('place', CRP, IMPP), ('transition', CRT, IMPT), ('arc', CRA, IMPA)):
            c.ensures('every-%s-created-once-in-order' % nm, lambda v, a=a, b=b: veq(a.shape, a.at(v), b.at(v)), 'import')
        c.ensures('option-set', lambda v: z3.And(v.g('crOset'), v.g('crO') == opt_val(c, c.g('impO')), z3.Or(*[c.g('impO') == lit(n) for n in OPTIONS])), 'import')
    C.add(Contract(u, import_int))

    def load(ex, doc, path, ok, st, n):
        ex.set_ghost(st, 'loadPath', path)
        ex.set_ghost(st, 'loadOk', ok)
    C.hooks['xml_load'] = load

    def import_(c):
        path = c.args[0]
        every = ['running', 'crO', 'crOset', 'stage', 'imports', 'loadPath', 'loadOk', 'xN', 'xM', 'xA', 'xH'] + CRP.names() + CRT.names() + CRA.names()
        c.throw_modifies(*[('ghost', g) for g in every])
        c.may_throw('PTN_Exception', T, 'import')
        for g in every:
            c.gmodifies(g, None, 'any')
        c.ensures('loaded-the-given-file', lambda v: z3.And(v.g('loadOk'), v.g('loadPath') == path), 'import')
        c.ensures('imported-once', lambda v: v.g('imports') == c.g('imports') + 1, 'import')
    C.add(Contract(XI + '::_import', import_))


def factories(C):
    """What the factories hand out: a new object of the XML class (no other format exists)."""
    for f, base, cls in (('FileExporterFactory::createXMLFileExporter', IE, XE), ('FileImporterFactory::createXMLFileImporter', II, XI)):
        def make(c, base=base, cls=cls):
            c.ret_any(SRef(base, 'unique'))
            for g in ('dyntype', 'alive'):
                c.gmodifies(g, lambda r: z3.Not(c.gs('allocated', r)), 'import')
            c.gmodifies('allocated', lambda r: z3.Not(c.gs('allocated', r)), 'any')
            x = lambda: c.result
            c.ensures('a-new-file-object', lambda v: z3.And(x() > 0, v.gs('alive', x()), z3.Not(c.gs('allocated', x())), v.gs('allocated', x())), 'import')
            c.ensures('of-the-xml-class', lambda v: v.gs('dyntype', x()) == z3.IntVal(classid(cls)), 'import')
        C.add(Contract('ptne::' + f, make))
