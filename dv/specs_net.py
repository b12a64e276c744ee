"""Contracts of Place and Transition (and of the executor interface they dispatch to)."""
import z3
from core import *
from contracts import *

P, TR = 'ptne::Place', 'ptne::Transition'
IEX = 'ptne::IActionsExecutor'
MAX = TWO64 - 1
AI = z3.ArraySort(I, I)


def setup(C):
    for g in ('denter', 'dexit', 'fnE', 'fnX', 'exE', 'exX', 'tokE', 'tokX', 'exitsSeen'):
        C.ghosts[g] = AI
    C.ghosts['nEnter'] = I
    C.ghosts.update({'trace': AI, 'traceFired': z3.ArraySort(I, B), 'nTrace': I, 'firings': I})
    # of the firing under way: must its activation places be blocked, and which places were unblocked since it began
    C.ghosts['gateOn'] = B
    C.ghosts['unblocked'] = z3.ArraySort(I, B)
    C.entries.append(lambda ex, v, this, unit: [v.g('gateOn') == v.f(TR, 'm_requireNoActionsInExecution', this), v.g('unblocked') == z3.K(I, F)] if unit == TR + '::execute'
                     else [] if 'XML' in unit else [z3.Not(v.g('gateOn'))])
    C.ghost_total |= {'trace', 'traceFired'}
    C.volatile.add((P, 'm_blockStartingOnEnterActions'))
    C.unobserved |= {(P, 'm_onEnterActionsInExecution'), (P, 'm_onExitActionsInExecution')}
    for f in ('m_numberOfTokens', 'm_actionsExecutor'):
        C.guards[(P, f)] = ('lock', P + '::m_mutex')
    for f in ('m_blockStartingOnEnterActions', 'm_onEnterActionsInExecution', 'm_onExitActionsInExecution'):
        C.guards[(P, f)] = ('atomic', None)
    for f in ('m_isInputPlace', 'm_name', 'm_onEnterAction', 'm_onEnterActionName', 'm_onExitAction', 'm_onExitActionName'):
        C.guards[(P, f)] = ('immutable', None)
    for f in ('m_activationArcs', 'm_destinationArcs', 'm_inhibitorArcs'):
        C.guards[(TR, f)] = ('lock', TR + '::m_mutex')
    for f in ('m_additionalActivationConditions', 'm_name', 'm_requireNoActionsInExecution'):
        C.guards[(TR, f)] = ('immutable', None)

    C.levels.update({TR + '::m_mutex': 40, P + '::m_mutex': 50, 'ptne::JobQueue::m_jobQueueMutex': 60})

    C.wait_ok[TR + '::m_mutex'] = []

    def ranges(ex, v):
        r = z3.Int('rg!r')
        out = []
        for f in ('m_numberOfTokens', 'm_onEnterActionsInExecution', 'm_onExitActionsInExecution'):
            sh, a = v.arrs(P, f)
            x = z3.Select(a[0], r)
            out.append(z3.ForAll([r], z3.And(0 <= x, x <= MAX), patterns=[x]))
        return out
    C.globals.append(ranges)
    place(C)
    transition(C)


# ---------------------------------------------------------------- places
def exec_alive(c, p):
    e = c.f(P, 'm_actionsExecutor', p)
    return z3.And(e != 0, c.gs('alive', e))


def blocked(c, p):
    return c.f(P, 'm_blockStartingOnEnterActions', p)


def place_ready(c, p):
    """A place with an action has a live executor."""
    return z3.Implies(z3.Or(c.f(P, 'm_onEnterAction', p) != 0, c.f(P, 'm_onExitAction', p) != 0), exec_alive(c, p))


def dispatch(c, kind, p, cond, fn, tokens):
    """Ghost record of handing fn to the executor of p, when cond."""
    k = {'E': 'denter', 'X': 'dexit'}[kind]
    for g, val in ((k, c.gs(k, p) + 1), ('fn' + kind, fn), ('ex' + kind, c.f(P, 'm_actionsExecutor', p)), ('tok' + kind, tokens)):
        c.gset1(g, p, z3.If(cond, val, c.gs(g, p)), 'disp')
    if kind == 'E':
        c.gset('nEnter', c.g('nEnter') + z3.If(cond, 1, 0), 'disp')
    else:
        c.gset1('exitsSeen', p, z3.If(cond, c.g('nEnter'), c.gs('exitsSeen', p)), 'disp')


def enter(c, p, t, given=None):
    """Adding t tokens to place p (given: what is known when this is reached)."""
    given = T if given is None else given
    tok, fn = c.f(P, 'm_numberOfTokens', p), c.f(P, 'm_onEnterAction', p)
    c.req('executor-alive', z3.Implies(given, z3.Implies(fn != 0, exec_alive(c, p))), 'disp')
    c.req('on-enter-actions-not-blocked-by-the-caller', z3.Implies(z3.And(given, fn != 0), z3.Not(c.f(P, 'm_blockStartingOnEnterActions', p))), 'block')
    c.throws('NullTokensException', z3.And(given, t == 0), 'arith')
    c.throws('OverflowException', z3.And(given, t > 0, t > MAX - tok), 'arith')
    c.set(P, 'm_numberOfTokens', p, tok + t, 'arith')
    dispatch(c, 'E', p, fn != 0, fn, tok + t)
    c.modifies(P, 'm_onEnterActionsInExecution', lambda r: r == p, 'any')


def place(C):
    # ---- the executor interface
    def execute_action(c):
        fn, counter = c.args
        st = c.new
        fnv = c.ex.rv(fn, c.st)
        fnv = c.ex.coerce(fnv, FN, st)
        c.req('action-callable', fnv != 0, 'disp')
        lv = counter
        if isinstance(lv, LHeap) and lv.cls == P and lv.field in ('m_onEnterActionsInExecution', 'm_onExitActionsInExecution'):
            kind = 'E' if 'Enter' in lv.field else 'X'
            p = lv.ref
            k = {'E': 'denter', 'X': 'dexit'}[kind]
            for g, val in ((k, c.gs(k, p) + 1), ('fn' + kind, fnv), ('ex' + kind, c.this), ('tok' + kind, c.f(P, 'm_numberOfTokens', p))):
                c.gset1(g, p, val, 'disp')
            if kind == 'E':
                c.gset('nEnter', c.g('nEnter') + 1, 'disp')
            else:
                c.gset1('exitsSeen', p, c.g('nEnter'), 'disp')
            c.modifies(P, lv.field, lambda r: r == p, 'any')
        else:
            raise Unsupported('executeAction with an unknown counter', c.node)
    C.add(Contract(IEX + '::executeAction', execute_action, keep_lvalues=True, trusted=True))

    def ctor(c):
        pr, exr = c.args
        c.throws('PTN_Exception', z3.Or(z3.And(pr.get('onEnterActionFunctionName') != EMPTY, pr.get('onEnterAction') == 0),
                                        z3.And(pr.get('onExitActionFunctionName') != EMPTY, pr.get('onExitAction') == 0)))
        for f, s in (('m_name', 'name'), ('m_onEnterAction', 'onEnterAction'), ('m_onEnterActionName', 'onEnterActionFunctionName'), ('m_onExitAction', 'onExitAction'),
                     ('m_onExitActionName', 'onExitActionFunctionName'), ('m_numberOfTokens', 'initialNumberOfTokens'), ('m_isInputPlace', 'input')):
            c.set(P, f, c.this, pr.get(s), 'build')
        c.set(P, 'm_actionsExecutor', c.this, exr, 'exec')
        c.set(P, 'm_blockStartingOnEnterActions', c.this, F, 'build')
        for f in ('m_onEnterActionsInExecution', 'm_onExitActionsInExecution'):
            c.set(P, f, c.this, z3.IntVal(0), 'build')
        c.touched.pop((P, 'x'), None)
    C.add(Contract(P + '::Place', ctor, ctor=True))

    C.add(Contract(P + '::enterPlace', lambda c: enter(c, c.this, c.args[0])))

    def exit_(c):
        t, = c.args
        p = c.this
        tok, fn = c.f(P, 'm_numberOfTokens', p), c.f(P, 'm_onExitAction', p)
        c.req('stays-blocked-until-its-tokens-are-taken', z3.Implies(c.g('gateOn'), z3.And(blocked(c, p), z3.Not(c.gs('unblocked', p)))), 'gate')
        c.req('executor-alive', z3.Implies(fn != 0, exec_alive(c, p)), 'disp')
        c.throws('NotEnoughTokensException', tok < t, 'arith')
        new = z3.If(t == 0, z3.IntVal(0), tok - t)
        c.set(P, 'm_numberOfTokens', p, new, 'arith')
        dispatch(c, 'X', p, fn != 0, fn, new)
        c.modifies(P, 'm_onExitActionsInExecution', lambda r: r == p, 'any')
    C.add(Contract(P + '::exitPlace', exit_))

    C.add(Contract(P + '::setNumberOfTokens', lambda c: c.set(P, 'm_numberOfTokens', c.this, c.args[0], 'arith')))
    C.add(Contract(P + '::getNumberOfTokens', lambda c: c.ret(c.f(P, 'm_numberOfTokens', c.this), UINT64, 'report')))
    C.add(Contract(P + '::getName', lambda c: c.ret(c.f(P, 'm_name', c.this), STR, 'report')))
    C.add(Contract(P + '::isInputPlace', lambda c: c.ret(c.f(P, 'm_isInputPlace', c.this), BOOL, 'report')))
    C.add(Contract(P + '::getOnEnterActionName', lambda c: c.ret(c.f(P, 'm_onEnterActionName', c.this), STR, 'report')))
    C.add(Contract(P + '::getOnExitActionName', lambda c: c.ret(c.f(P, 'm_onExitActionName', c.this), STR, 'report')))

    def in_exec(c):
        c.req('blocked-before-its-actions-are-looked-at', z3.Implies(c.g('gateOn'), blocked(c, c.this)), 'gate')
        c.ret(c.f(P, 'm_onEnterActionsInExecution', c.this) > 0, BOOL, 'gate')
    C.add(Contract(P + '::isOnEnterActionInExecution', in_exec))

    def block(c):
        c.set(P, 'm_blockStartingOnEnterActions', c.this, c.args[0], 'block')
        if c.mode == 'apply':
            c.gset1('unblocked', c.this, z3.Or(c.gs('unblocked', c.this), z3.Not(c.args[0])), 'block')
    C.add(Contract(P + '::blockStartingOnEnterActions', block))
    C.add(Contract(P + '::setActionsExecutor', lambda c: c.set(P, 'm_actionsExecutor', c.this, c.args[0], 'exec')))

    def props(c):
        sh = c.ex.types.shape('ptne::PlaceProperties')
        f = lambda n: c.f(P, n, c.this)
        c.ret(Struct(sh, {'name': f('m_name'), 'onEnterActionFunctionName': f('m_onEnterActionName'), 'onExitActionFunctionName': f('m_onExitActionName'),
                          'initialNumberOfTokens': f('m_numberOfTokens'), 'onEnterAction': f('m_onEnterAction'), 'onExitAction': f('m_onExitAction'),
                          'input': f('m_isInputPlace')}), sh, 'report')
    C.add(Contract(P + '::placeProperties', props))


# ---------------------------------------------------------------- transitions
ROLES = {'A': 'm_activationArcs', 'D': 'm_destinationArcs', 'H': 'm_inhibitorArcs'}


def pl(v, j):
    return v.at(j).get('place')


def wt(v, j):
    return v.at(j).get('weight')


def all_j(v, fn, leaf=0):
    j = z3.Int('aj!%d' % next(core_cnt()))
    return forall([j], z3.Implies(z3.And(0 <= j, j < v.n), fn(j)), [z3.Select(v.arrs[leaf], j)])


def distinct(v, leaf=0):
    i, j = z3.Int('di!%d' % next(core_cnt())), z3.Int('dj!%d' % next(core_cnt()))
    a, b = z3.Select(v.arrs[leaf], i), z3.Select(v.arrs[leaf], j)
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.n), a != b), patterns=[z3.MultiPattern(a, b)])


def arcs_wf(c, v):
    """Well-formed arcs: each place exists, the weight is positive."""
    j = z3.Int('wj!%d' % next(core_cnt()))
    p, w = pl(v, j), wt(v, j)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(p > 0, c.gs('alive', p), c.gs('allocated', p), w > 0, w <= MAX)),
                     patterns=[z3.Select(v.arrs[0], j), z3.Select(v.arrs[1], j)])


def twf(c, t):
    """The class invariant of Transition."""
    out = []
    for r, f in ROLES.items():
        v = c.f(TR, f, t)
        out += [('arcs-%s-well-formed' % r, arcs_wf(c, v)), ('arcs-%s-places-distinct' % r, distinct(v)), ('arcs-%s-size' % r, v.n >= 0)]
    return out


def places_ready(c, t):
    out = []
    for r in 'AD':
        v = c.f(TR, ROLES[r], t)
        j = z3.Int('pj!%d' % next(core_cnt()))
        out.append(('executors-%s-alive' % r, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), place_ready(c, pl(v, j))), patterns=[z3.Select(v.arrs[0], j)])))
    return out


def enabled(c, t):
    A, H = c.f(TR, ROLES['A'], t), c.f(TR, ROLES['H'], t)
    tok = lambda p: c.f(P, 'm_numberOfTokens', p)
    return z3.And(all_j(A, lambda j: tok(pl(A, j)) >= wt(A, j)), all_j(H, lambda j: tok(pl(H, j)) == 0))


def gate_ok(c, t):
    A = c.f(TR, ROLES['A'], t)
    return z3.Or(z3.Not(c.f(TR, 'm_requireNoActionsInExecution', t)), all_j(A, lambda j: c.f(P, 'm_onEnterActionsInExecution', pl(A, j)) == 0))


def conditions_ok(c, t):
    cs = c.f(TR, 'm_additionalActivationConditions', t)
    return all_j(cs, lambda j: z3.And(cs.at(j).get('second') != 0, Cond(cs.at(j).get('second'))), 1)


def active(c, t):
    return z3.And(enabled(c, t), gate_ok(c, t), conditions_ok(c, t))


class Fire:
    """What firing t does, pointwise."""

    def __init__(self, c, t):
        self.c = c
        self.A, self.D = c.f(TR, ROLES['A'], t), c.f(TR, ROLES['D'], t)
        self.ia, self.id = c.inverse(self.A), c.inverse(self.D)

    def inA(self, r):
        i = self.ia(r)
        return z3.And(0 <= i, i < self.A.n, pl(self.A, i) == r)

    def inD(self, r):
        i = self.id(r)
        return z3.And(0 <= i, i < self.D.n, pl(self.D, i) == r)

    def aw(self, r):
        return z3.If(self.inA(r), wt(self.A, self.ia(r)), z3.IntVal(0))

    def dw(self, r):
        return z3.If(self.inD(r), wt(self.D, self.id(r)), z3.IntVal(0))

    def after_exit(self, r):
        return self.c.f(P, 'm_numberOfTokens', r) - self.aw(r)

    def tokens(self, r):
        return self.after_exit(r) + self.dw(r)


def execute(c):
    t = c.this
    for nm, fo in twf(c, t):
        c.req(nm, fo, 'wf')
    for nm, fo in places_ready(c, t):
        c.req(nm, fo, 'disp')
    r = z3.Int('nb!r')
    blk = c.arrs(P, 'm_blockStartingOnEnterActions')[1][0]
    c.req('no-place-blocked', z3.ForAll([r], z3.Not(z3.Select(blk, r)), patterns=[z3.Select(blk, r)]), 'block')
    fire = Fire(c, t)
    cs = c.f(TR, 'm_additionalActivationConditions', t)
    j = z3.Int('ex!j')
    act = active(c, t)
    en = z3.And(enabled(c, t), gate_ok(c, t))
    over = z3.And(act, z3.Not(all_j(fire.D, lambda j: fire.tokens(pl(fire.D, j)) <= MAX)))
    c.throws('OverflowException', over, 'arith')
    c.may_throw('PTN_Exception', z3.And(en, z3.Not(all_j(cs, lambda j: cs.at(j).get('second') != 0, 1))), 'fire')
    c.may_throw('user_exception', z3.And(en, z3.Not(all_j(cs, lambda j: z3.Not(CondThrows(cs.at(j).get('second'))), 1))), 'fire')
    fired = c.new.fresh('fired', B)
    c.define(fired == act)
    c.ret(fired, BOOL, 'fire')
    fn = lambda p, f: c.f(P, f, p)
    c.update(P, 'm_numberOfTokens', lambda r: z3.If(fired, fire.tokens(r), c.f(P, 'm_numberOfTokens', r)), 'tokens')
    e = lambda r: z3.And(fired, fire.inD(r), fn(r, 'm_onEnterAction') != 0)
    x = lambda r: z3.And(fired, fire.inA(r), fn(r, 'm_onExitAction') != 0)
    for k, g, cond, f, tk in (('E', 'denter', e, 'm_onEnterAction', fire.tokens), ('X', 'dexit', x, 'm_onExitAction', fire.after_exit)):
        c.gupdate(g, lambda r: c.gs(g, r) + z3.If(cond(r), 1, 0), 'disp')
        c.gupdate('fn' + k, lambda r: z3.If(cond(r), fn(r, f), c.gs('fn' + k, r)), 'disp')
        c.gupdate('ex' + k, lambda r: z3.If(cond(r), fn(r, 'm_actionsExecutor'), c.gs('ex' + k, r)), 'disp')
        c.gupdate('tok' + k, lambda r: z3.If(cond(r), tk(r), c.gs('tok' + k, r)), 'disp')
    # every exit action is handed over before any on-enter action of this firing
    n0 = c.g('nEnter')
    c.gupdate('exitsSeen', lambda r: z3.If(x(r), n0, c.gs('exitsSeen', r)), 'disp')
    c.gmodifies('nEnter', None, 'disp')
    c.ensures('on-enter-count-grows', lambda v: v.g('nEnter') >= n0, 'disp')
    c.modifies(P, 'm_onEnterActionsInExecution', None, 'any')
    c.modifies(P, 'm_onExitActionsInExecution', None, 'any')
    if c.mode == 'verify':
        c.gmodifies('unblocked', None, 'any')
    if c.mode == 'apply':
        # ghost history of the attempted firings
        n = c.g('nTrace')
        c.gset1('trace', n, t, 'any')
        c.gset1('traceFired', n, fired, 'any')
        c.gset('nTrace', n + 1, 'any')
        c.gset('firings', c.g('firings') + z3.If(fired, 1, 0), 'any')


def enum(c, n):
    for q, v in c.ex.prog.enums.items():
        if q.endswith('ArcProperties::Type'):
            return v[n] if isinstance(v, dict) else v.index(n)
    raise Unsupported('ArcProperties::Type')


def add_arc(c, t, p, ty, w, given):
    for nm, fo in twf(c, t):
        c.req(nm, z3.Implies(given, fo), 'wf')
    c.req('place-exists', z3.Implies(given, z3.And(p > 0, c.gs('alive', p), c.gs('allocated', p))), 'wf')
    v = {r: c.f(TR, f, t) for r, f in ROLES.items()}
    named = lambda vec: z3.Not(all_j(vec, lambda j: c.f(P, 'm_name', pl(vec, j)) != c.f(P, 'm_name', p)))
    kinds = {k: enum(c, k) for k in ('ACTIVATION', 'BIDIRECTIONAL', 'DESTINATION', 'INHIBITOR')}
    ins = {'A': z3.Or(ty == kinds['ACTIVATION'], ty == kinds['BIDIRECTIONAL']),
           'D': z3.Or(ty == kinds['DESTINATION'], ty == kinds['BIDIRECTIONAL']), 'H': ty == kinds['INHIBITOR']}
    bad = z3.And(*[ty != k for k in kinds.values()])
    c.throws('ZeroValueWeightException', z3.And(given, w == 0), 'arcs')
    c.throws('PTN_Exception', z3.And(given, w != 0, z3.Or(bad, *[z3.And(ins[r], named(v[r])) for r in 'ADH'])), 'arcs')
    sh = c.ex.types.shape('ptne::Arc')
    el = Struct(sh, {'place': p, 'weight': w})
    for r, f in ROLES.items():
        pu = v[r].push(el)
        c.set(TR, f, t, Vec(v[r].shape, z3.If(ins[r], pu.n, v[r].n), [z3.If(ins[r], a, b) for a, b in zip(pu.arrs, v[r].arrs)]), 'arcs')


def remove_arc(c, t, p, ty, given):
    for nm, fo in twf(c, t):
        c.req(nm, z3.Implies(given, fo), 'wf')
    c.req('place-exists', z3.Implies(given, z3.And(p > 0, c.gs('alive', p), c.gs('allocated', p))), 'wf')
    v = {r: c.f(TR, f, t) for r, f in ROLES.items()}
    same = lambda vec, j: c.f(P, 'm_name', pl(vec, j)) == c.f(P, 'm_name', p)
    has = lambda vec: z3.Not(all_j(vec, lambda j: z3.Not(same(vec, j))))
    kinds = {k: enum(c, k) for k in ('ACTIVATION', 'BIDIRECTIONAL', 'DESTINATION', 'INHIBITOR')}
    rem = {'A': z3.Or(ty == kinds['ACTIVATION'], ty == kinds['BIDIRECTIONAL']),
           'D': z3.Or(ty == kinds['DESTINATION'], ty == kinds['BIDIRECTIONAL']), 'H': ty == kinds['INHIBITOR']}
    bad = z3.And(*[ty != k for k in kinds.values()])
    c.throws('PTN_Exception', z3.And(given, z3.Or(bad, *[z3.And(rem[r], z3.Not(has(v[r]))) for r in 'ADH'])), 'arcs')
    for r, f in ROLES.items():
        vec = v[r]
        # the first arc with that place name goes, the rest keep their order
        i = c.new.fresh('rm' + r, I)
        c.define(z3.Implies(has(vec), z3.And(0 <= i, i < vec.n, same(vec, i), all_j(vec, lambda j: z3.Implies(j < i, z3.Not(same(vec, j)))))))
        arrs = []
        k = z3.Int('rm!k')
        for a in vec.arrs:
            b = c.new.fresh('removed' + r, a.sort())
            c.define(z3.ForAll([k], z3.Select(b, k) == z3.If(k < i, z3.Select(a, k), z3.Select(a, k + 1)), patterns=[z3.Select(b, k)]))
            arrs.append(z3.If(rem[r], b, a))
        c.set(TR, f, t, Vec(vec.shape, z3.If(rem[r], vec.n - 1, vec.n), arrs), 'arcs')


def repeated(exc):
    def spec(c):
        v = c.args[0]
        c.throws(exc, z3.Not(distinct(v)), 'build')
    return spec


def transition(C):
    for e in ('ActivationPlaceRepetitionException', 'DestinationPlaceRepetitionException', 'InhibitorPlaceRepetitionException'):
        C.add(Contract('ptne::utility::detectRepeated<ptne::Place, ptne::%s>' % e, repeated(e)))
    C.add(Contract('ptne::utility::detectRepeatedNames<std::basic_string<char>, ptne::RepeatedPlaceNamesException>', repeated('RepeatedPlaceNamesException')))

    def ctor(c):
        nm, A, D, H, conds, req = c.args
        for v in (A, D, H):
            c.req('places-exist', all_j(v, lambda j: z3.And(pl(v, j) > 0, c.gs('alive', pl(v, j)), c.gs('allocated', pl(v, j)))), 'wf')
        c.throws('ActivationPlaceRepetitionException', z3.Not(distinct(A)), 'build')
        c.throws('DestinationPlaceRepetitionException', z3.And(distinct(A), z3.Not(distinct(D))), 'build')
        c.throws('InhibitorPlaceRepetitionException', z3.And(distinct(A), distinct(D), z3.Not(distinct(H))), 'build')
        dis = z3.And(distinct(A), distinct(D), distinct(H))
        pos = z3.And(*[all_j(v, lambda j: wt(v, j) != 0, 1) for v in (A, D, H)])
        c.throws('ZeroValueWeightException', z3.And(dis, z3.Not(pos)), 'build')
        for f, v in (('m_name', nm), ('m_activationArcs', A), ('m_destinationArcs', D), ('m_inhibitorArcs', H),
                     ('m_additionalActivationConditions', conds), ('m_requireNoActionsInExecution', req)):
            c.set(TR, f, c.this, v, 'build')
    C.add(Contract(TR + '::Transition', ctor, ctor=True))

    C.add(Contract(TR + '::execute', execute))

    def is_enabled(c):
        for nm, fo in twf(c, c.this):
            c.req(nm, fo, 'wf')
        c.ret(enabled(c, c.this), BOOL, 'fire')
    C.add(Contract(TR + '::isEnabled', is_enabled))

    for m, f in (('getActivationArcs', 'm_activationArcs'), ('getDestinationArcs', 'm_destinationArcs'), ('getInhibitorArcs', 'm_inhibitorArcs'),
                 ('getAdditionalActivationConditions', 'm_additionalActivationConditions'), ('getName', 'm_name')):
        C.add(Contract(TR + '::' + m, lambda c, f=f: c.ret(c.f(TR, f, c.this), None, 'report')))

    C.add(Contract(TR + '::addArc', lambda c: add_arc(c, c.this, *c.args, T)))
    C.add(Contract(TR + '::removeArc', lambda c: remove_arc(c, c.this, *c.args, T)))

    def props(c):
        t = c.this
        for nm, fo in twf(c, t):
            c.req(nm, fo, 'wf')
        sh = c.ex.types.shape('ptne::TransitionProperties')
        c.ret_any(sh)
        f = lambda n: c.f(TR, n, t)
        ap = c.ex.types.shape('ptne::ArcProperties')
        kinds = {r: enum(c, k) for r, k in (('A', 'ACTIVATION'), ('D', 'DESTINATION'), ('H', 'INHIBITOR'))}
        for r, of in (('A', 'activationArcs'), ('D', 'destinationArcs'), ('H', 'inhibitorArcs')):
            def arcs_ok(v, r=r, of=of):
                src, dst = f(ROLES[r]), c.result.get(of)
                return z3.And(dst.n == src.n, all_j(dst, lambda j: z3.And(
                    dst.at(j).get('weight') == wt(src, j), dst.at(j).get('placeName') == c.f(P, 'm_name', pl(src, j)),
                    dst.at(j).get('transitionName') == f('m_name'), dst.at(j).get('type') == kinds[r])))
            c.ensures('reports-%s' % of, arcs_ok, 'report')
        c.ensures('reports-name', lambda v: c.result.get('name') == f('m_name'), 'report')
        c.ensures('reports-gate', lambda v: c.result.get('requireNoActionsInExecution') == f('m_requireNoActionsInExecution'), 'report')
        cs = f('m_additionalActivationConditions')

        def conds(v):
            a, b = c.result.get('additionalConditionsNames'), c.result.get('additionalConditions')
            return z3.And(a.n == cs.n, b.n == cs.n, all_j(a, lambda j: a.at(j) == cs.at(j).get('first')), all_j(b, lambda j: b.at(j) == cs.at(j).get('second')))
        c.ensures('reports-conditions', conds, 'report')
    C.add(Contract(TR + '::getTransitionProperties', props))
