"""Contracts of the managers, the function registries and the engine."""
import z3
from core import *
from contracts import *
from specs_net import *
from lib import classid

MBP, MBT = 'ptne::ManagerBase<ptne::Place>', 'ptne::ManagerBase<ptne::Transition>'
PM, TM, EI = 'ptne::PlacesManager', 'ptne::TransitionsManager', 'ptne::PTN_EngineImp'
MCA, MCC = 'ptne::ManagedContainer<std::function<void ()>>', 'ptne::ManagedContainer<std::function<bool ()>>'
EL = 'ptne::EventLoop'
IEL = 'ptne::IPTN_EngineEL'
FACT = 'ptne::ActionsExecutorFactory'
OPTS = ('SINGLE_THREAD', 'EVENT_LOOP', 'DETACHED', 'JOB_QUEUE')


def uid(s):
    return '%s!%d' % (s, next(core_cnt()))


def items(c, cls, m):
    """The map of a manager, with the facts every map has."""
    return c.f(cls, 'm_items', m)


def wf_facts(c, cls, field, ref):
    sh, _ = c.arrs(cls, field)
    for x in wf_val(sh, c.f(cls, field, ref)):
        c.define(x)


def has(m, k):
    return z3.Select(m.dom, k)


def val(m, k):
    return m.val(k)


def all_keys(m, fn, *more):
    k = z3.Const(uid('k'), Str)
    return z3.ForAll([k], z3.Implies(has(m, k), fn(k)), patterns=[has(m, k), z3.Select(m.arrs[0], k)] + [g(k) for g in more])


def registered(c, cls, owner_cls, m, r):
    """r is an item of the manager m."""
    mp = items(c, cls, m)
    nm = c.f(owner_cls, 'm_name', r)
    return z3.And(r > 0, has(mp, nm), val(mp, nm) == r)


def in_p(c, m, r):
    return registered(c, MBP, P, m, r)


def in_t(c, m, r):
    return registered(c, MBT, TR, m, r)


def item_inv(c, cls, ocls, m, what):
    mp = items(c, cls, m)
    name = c.arrs(ocls, 'm_name')[1][0]
    return [('%s-registered-under-their-name' % what, all_keys(mp, lambda k: z3.And(
        val(mp, k) > 0, c.gs('alive', val(mp, k)), c.gs('allocated', val(mp, k)), z3.Select(name, val(mp, k)) == k, k != EMPTY)))]


def pm_inv(c, m):
    mp = items(c, MBP, m)
    v = c.f(PM, 'm_inputPlaces', m)
    j = z3.Int(uid('ij'))
    out = item_inv(c, MBP, P, m, 'places')
    out.append(('input-list-holds-input-places', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(
        in_p(c, m, v.at(j)), c.gs('alive', v.at(j)), c.gs('allocated', v.at(j)), c.f(P, 'm_isInputPlace', v.at(j)))), patterns=[z3.Select(v.arrs[0], j)])))
    out.append(('input-list-complete', all_keys(mp, lambda k: z3.Implies(c.f(P, 'm_isInputPlace', val(mp, k)), z3.Not(
        all_j(v, lambda i: v.at(i) != val(mp, k)))))))
    return out


def tm_inv(c, m):
    return item_inv(c, MBT, TR, m, 'transitions')


def no_block(c):
    r = z3.Int('nb!r')
    blk = c.arrs(P, 'm_blockStartingOnEnterActions')[1][0]
    return z3.ForAll([r], z3.Not(z3.Select(blk, r)), patterns=[z3.Select(blk, r)])


def of_all(c, tm, fn, tag):
    """fn(t) -> [(name, formula)] for every registered transition t, by key."""
    mp = items(c, MBT, tm)
    out = []
    k = z3.Const(uid('tk'), Str)
    for nm, fo in fn(val(mp, k)):
        # the inner quantifier's patterns mention the transition through its key
        out.append(('%s.%s' % (tag, nm), all_keys(mp, lambda kk: z3.substitute(fo, (k, kk)))))
    return out


def flat_twf(c, tm):
    """Every registered transition is well formed: flattened over its arcs."""
    mp = items(c, MBT, tm)
    out = []
    for r, f in ROLES.items():
        k, j, i = z3.Const(uid('tk'), Str), z3.Int(uid('tj')), z3.Int(uid('ti'))
        v = c.f(TR, f, val(mp, k))
        p, w = pl(v, j), wt(v, j)
        out.append(('arcs-%s-well-formed' % r, z3.ForAll([k, j], z3.Implies(z3.And(has(mp, k), 0 <= j, j < v.n), z3.And(
            p > 0, c.gs('alive', p), c.gs('allocated', p), w > 0, w <= MAX)), patterns=[z3.Select(v.arrs[0], j), z3.Select(v.arrs[1], j)])))
        a, b = z3.Select(v.arrs[0], i), z3.Select(v.arrs[0], j)
        out.append(('arcs-%s-places-distinct' % r, z3.ForAll([k, i, j], z3.Implies(z3.And(has(mp, k), 0 <= i, i < j, j < v.n), a != b), patterns=[z3.MultiPattern(a, b)])))
        out.append(('arcs-%s-size' % r, all_keys(mp, lambda kk: c.f(TR, f, val(mp, kk)).n >= 0)))
    return out


def arcs_in_net(c, pm, tm):
    mp = items(c, MBT, tm)
    out = []
    for r, f in ROLES.items():
        k, j = z3.Const(uid('tk'), Str), z3.Int(uid('tj'))
        v = c.f(TR, f, val(mp, k))
        out.append(('arcs-%s-connect-places-of-the-net' % r, z3.ForAll([k, j], z3.Implies(z3.And(has(mp, k), 0 <= j, j < v.n), in_p(c, pm, pl(v, j))), patterns=[z3.Select(v.arrs[0], j)])))
    return out


def sub_refs(c, e):
    s = c.ex.sub
    return s(EI, 'm_places', e), s(EI, 'm_transitions', e)


def exec_of_option(c, opt, x):
    kinds = opt_enum(c)
    d = c.gs('dyntype', x)
    cid = lambda n: z3.IntVal(classid('ptne::' + n))
    return z3.And(x > 0, c.gs('alive', x), c.gs('allocated', x), z3.Or(
        z3.And(z3.Or(opt == kinds['SINGLE_THREAD'], opt == kinds['EVENT_LOOP']), d == cid('SingleThreadExecutor')),
        z3.And(opt == kinds['JOB_QUEUE'], d == cid('JobQueueExecutor')), z3.And(opt == kinds['DETACHED'], d == cid('DetachedExecutor'))))


def opt_enum(c):
    for q, v in c.ex.prog.enums.items():
        if q.endswith('ACTIONS_THREAD_OPTION'):
            return {k: (v[k] if isinstance(v, dict) else v.index(k)) for k in OPTS}
    raise Unsupported('ACTIONS_THREAD_OPTION')


def exec_inv(c, e):
    pm, _ = sub_refs(c, e)
    mp = items(c, MBP, pm)
    x = c.f(EI, 'm_actionsExecutor', e)
    return [('executor-matches-option', exec_of_option(c, c.f(EI, 'm_actionsThreadOption', e), x)),
            ('every-place-uses-the-engine-executor', all_keys(mp, lambda k: c.f(P, 'm_actionsExecutor', val(mp, k)) == x))]


def eng_inv(c, e):
    pm, tm = sub_refs(c, e)
    el = c.ex.sub(EI, 'm_eventLoop', e)
    return [('loop-bound-to-its-engine', c.f(EL, 'm_ptnEngine', el) == e)] + pm_inv(c, pm) + tm_inv(c, tm) + flat_twf(c, tm) + arcs_in_net(c, pm, tm) + exec_inv(c, e) + [('no-place-blocked', no_block(c))]


def keep(c, inv, *a, req=True, asp=None):
    """inv is required and re-established."""
    if req:
        for nm, fo in inv(c, *a):
            c.req(nm, fo, asp or 'wf')


def establish(c, inv, *a, asp=None):
    """One named obligation per conjunct, in the post state."""
    for i, (nm, _) in enumerate(inv(c, *a)):
        c.ensures(nm, lambda v, i=i: inv(Vw(v, c), *a)[i][1], asp or 'netinv')


class Vw:
    """A post-state view with the context's executor."""

    def __init__(self, v, c):
        self.v, self.ex = v, c.ex
        self.f, self.g, self.gs, self.arrs = v.f, v.g, v.gs, v.arrs


def map_put(c, cls, m, k, x, asp, when=None):
    """The map after insertion of k -> x; the rest unchanged."""
    old = items(c, cls, m)
    c.modifies(cls, 'm_items', lambda r: r == m, asp)
    kk = z3.Const(uid('mk'), Str)

    def post(v):
        new = v.f(cls, 'm_items', m)
        return z3.And(new.n == old.n + 1, z3.ForAll([kk], z3.And(has(new, kk) == z3.Or(kk == k, has(old, kk)),
                      z3.Implies(has(new, kk), veq(old.shape.v, new.val(kk), ite(old.shape.v, kk == k, x, old.val(kk))))),
            patterns=[has(new, kk), has(old, kk), z3.Select(new.arrs[0], kk), z3.Select(old.arrs[0], kk)]))
    c.ensures('exactly-the-new-item-is-added', post, asp)


def map_same(c, v, cls, m):
    return veq(items(c, cls, m).shape, items(c, cls, m), v.f(cls, 'm_items', m))


def ite(sh, cond, a, b):
    return unpack(sh, [z3.If(cond, x, y) for x, y in zip(pack(sh, a), pack(sh, b))])


def setup(C):
    for cls, own, mu in ((MBP, PM, PM + '::m_itemsMutex'), (MBT, TM, TM + '::m_itemsMutex')):
        C.guards[(cls, 'm_items')] = ('lock', mu)
        C.levels[mu] = 30
    C.guards[(PM, 'm_inputPlaces')] = ('lock', PM + '::m_itemsMutex')
    for cls in (MCA, MCC):
        C.guards[(cls, 'm_items')] = ('lock', cls + '::m_mutex')
        C.levels[cls + '::m_mutex'] = 35
    C.guards[(EI, 'm_actionsThreadOption')] = ('lock', EI + '::m_actionsThreadOptionMutex')
    C.guards[(EI, 'm_newInputReceived')] = ('atomic', None)
    C.levels[EI + '::m_actionsThreadOptionMutex'] = 20
    # enterPlace waits until a firing transition unblocks the place: the firing must not need the lock of the waiting caller
    C.wait_ok[PM + '::m_itemsMutex'] = [TR + '::execute']
    managers(C)
    registries(C)
    engine(C)


# ---------------------------------------------------------------- managers
def report_places(c, mp, rep):
    """rep lists every place of the map once, with its current data."""
    f = lambda n, p: c.f(P, n, p)
    nm = lambda i: rep.at(i).get('name')

    def one(i):
        p = val(mp, nm(i))
        r = rep.at(i)
        return z3.And(has(mp, nm(i)), r.get('onEnterActionFunctionName') == f('m_onEnterActionName', p), r.get('onExitActionFunctionName') == f('m_onExitActionName', p),
                      r.get('initialNumberOfTokens') == f('m_numberOfTokens', p), r.get('onEnterAction') == f('m_onEnterAction', p),
                      r.get('onExitAction') == f('m_onExitAction', p), r.get('input') == f('m_isInputPlace', p))
    return [('as-many-as-places', rep.n == mp.n), ('each-is-a-place-with-its-current-data', all_j(rep, one, list(n for n, _ in rep.shape.elem.fields).index('name'))),
            ('every-place-is-reported', all_keys(mp, lambda k: z3.Not(all_j(rep, lambda i: nm(i) != k, 0))))]


def managers(C):
    for cls, own, ocls, get in ((MBP, PM, P, 'getPlace'), (MBT, TM, TR, 'getTransition')):
        C.add(Contract(own + '::contains', lambda c, cls=cls: c.ret(has(items(c, cls, c.this), c.args[0]), BOOL, 'report')))

        def getter(c, cls=cls):
            mp = items(c, cls, c.this)
            c.throws('PTN_Exception', z3.Not(has(mp, c.args[0])), 'report')
            c.ret(val(mp, c.args[0]), mp.shape.v, 'report')
        C.add(Contract(own + '::' + get, getter))

        def insert(c, cls=cls, own=own, ocls=ocls):
            x, = c.args
            m = c.this
            inv = pm_inv if own == PM else tm_inv
            keep(c, inv, m)
            mp = items(c, cls, m)
            nm = c.f(ocls, 'm_name', x)
            c.req('item-exists', z3.And(x >= 0, z3.Implies(x != 0, z3.And(c.gs('alive', x), c.gs('allocated', x)))), 'wf')
            c.throws('PTN_Exception', z3.Or(x == 0, nm == EMPTY), 'build')
            c.throws('RepeatedPlaceException', z3.And(x != 0, nm != EMPTY, has(mp, nm)), 'build')
            map_put(c, cls, m, nm, x, 'build')
            if own == PM:
                v = c.f(PM, 'm_inputPlaces', m)
                pu = v.push(x)
                inp = c.f(P, 'm_isInputPlace', x)
                c.set(PM, 'm_inputPlaces', m, Vec(v.shape, z3.If(inp, pu.n, v.n), [z3.If(inp, a, b) for a, b in zip(pu.arrs, v.arrs)]), 'build')
            establish(c, inv, m)
        C.add(Contract(own + '::insert', insert))

        def clear(c, cls=cls, own=own):
            m = c.this
            old = items(c, cls, m)
            c.modifies(cls, 'm_items', lambda r: r == m, 'clear')
            k = z3.Const(uid('ck'), Str)

            def empty(v):
                new = v.f(cls, 'm_items', m)
                return z3.And(new.n == 0, z3.ForAll([k], z3.Not(has(new, k)), patterns=[has(new, k)]))
            c.ensures('empty', empty, 'clear')
            if own == PM:
                c.modifies(PM, 'm_inputPlaces', lambda r: r == m, 'clear')
                c.ensures('no-input-places', lambda v: v.f(PM, 'm_inputPlaces', m).n == 0, 'clear')
        C.add(Contract(own + '::clear', clear))

    def clear_inputs(c):
        m = c.this
        keep(c, pm_inv, m)
        c.update(P, 'm_numberOfTokens', lambda r: z3.If(z3.And(in_p(c, m, r), c.f(P, 'm_isInputPlace', r)), z3.IntVal(0), c.f(P, 'm_numberOfTokens', r)), 'inputs')
    C.add(Contract(PM + '::clearInputPlaces', clear_inputs))

    def print_state(c):
        keep(c, pm_inv, c.this)
    C.add(Contract(PM + '::printState', print_state))

    def set_exec(c):
        m, x = c.this, c.args[0]
        keep(c, pm_inv, m)
        c.update(P, 'm_actionsExecutor', lambda r: z3.If(in_p(c, m, r), x, c.f(P, 'm_actionsExecutor', r)), 'exec')
    C.add(Contract(PM + '::setActionsExecutor', set_exec))

    def tokens(c):
        mp = items(c, MBP, c.this)
        keep(c, pm_inv, c.this)
        c.throws('InvalidNameException', z3.Not(has(mp, c.args[0])), 'report')
        c.ret(c.f(P, 'm_numberOfTokens', val(mp, c.args[0])), UINT64, 'report')
    C.add(Contract(PM + '::getNumberOfTokens', tokens))

    def incr(c):
        keep(c, pm_inv, c.this)
        increment(c, c.this, c.args[0])
    C.add(Contract(PM + '::incrementInputPlace', incr))

    def props(c):
        keep(c, pm_inv, c.this)
        sh = c.ex.types.shape('ptne::PlaceProperties')
        c.ret_any(SVec(sh))
        mp = items(c, MBP, c.this)
        establish_rep(c, report_places, mp, 3)
    C.add(Contract(PM + '::getPlacesProperties', props))

    def places(c):
        names, = c.args
        m = c.this
        mp = items(c, MBP, m)
        keep(c, pm_inv, m)
        dis = distinct(names)
        allin = all_j(names, lambda j: has(mp, names.at(j)))
        c.throws('RepeatedPlaceNamesException', z3.Not(dis), 'report')
        c.throws('InvalidNameException', z3.And(dis, z3.Not(allin)), 'report')
        c.ret_any(SVec(SRef(P, 'weak')))
        c.ensures('the-named-places', lambda v: z3.And(c.result.n == names.n, all_j(c.result, lambda j: c.result.at(j) == val(mp, names.at(j)))), 'report')
    C.add(Contract(PM + '::getPlaces', places))

    # ---- transitions
    def collect(c):
        m = c.this
        mp = items(c, MBT, m)
        keep(c, tm_inv, m)
        for nm, fo in flat_twf(c, m):
            c.req(nm, fo, 'wf')
        c.ret_any(SVec(SRef(TR, 'weak')))
        establish_rep(c, sweep_list, m, 3, 'sweep')
    C.add(Contract(TM + '::collectEnabledTransitionsRandomly', collect))

    def tprops(c):
        m = c.this
        mp = items(c, MBT, m)
        keep(c, tm_inv, m)
        for nm, fo in flat_twf(c, m):
            c.req(nm, fo, 'wf')
        c.ret_any(SVec(c.ex.types.shape('ptne::TransitionProperties')))
        establish_rep(c, report_transitions, mp, 9, 'report')
    C.add(Contract(TM + '::getTransitionsProperties', tprops))


def establish_rep(c, fn, x, n, asp='report'):
    probe = [nm for nm, _ in fn(c, x, c.ex_fresh(c.retshape))]
    for i, nm in enumerate(probe):
        c.ensures(nm, lambda v, i=i: fn(c, x, c.result)[i][1], asp)


def sweep_list(c, m, v):
    """v lists exactly the enabled transitions, each once."""
    mp = items(c, MBT, m)
    return [('only-enabled-transitions-of-the-net', all_j(v, lambda j: z3.And(in_t(c, m, v.at(j)), c.gs('alive', v.at(j)), enabled(c, v.at(j))))),
            ('each-once', distinct(v)),
            ('every-enabled-transition', all_keys(mp, lambda k: z3.Implies(enabled(c, val(mp, k)), z3.Not(all_j(v, lambda j: v.at(j) != val(mp, k))))))]


def report_transitions(c, mp, rep):
    f = lambda n, t: c.f(TR, n, t)
    nm = lambda i: rep.at(i).get('name')
    names = [n for n, _ in rep.shape.elem.fields]
    kinds = {r: arc_enum(c, k) for r, k in (('A', 'ACTIVATION'), ('D', 'DESTINATION'), ('H', 'INHIBITOR'))}
    out = [('as-many-as-transitions', rep.n == mp.n),
           ('every-transition-is-reported', all_keys(mp, lambda k: z3.Not(all_j(rep, lambda i: nm(i) != k, 0))))]
    li = leafidx(rep.shape.elem, 'name')

    def each(fn):
        i = z3.Int(uid('ri'))
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < rep.n), fn(i)), patterns=[z3.Select(rep.arrs[li], i)])
    out.append(('each-is-a-transition', each(lambda i: z3.And(has(mp, nm(i)), rep.at(i).get('requireNoActionsInExecution') == f('m_requireNoActionsInExecution', val(mp, nm(i)))))))
    for r, of in (('A', 'activationArcs'), ('D', 'destinationArcs'), ('H', 'inhibitorArcs')):
        i, j = z3.Int(uid('ri')), z3.Int(uid('rj'))
        t = val(mp, nm(i))
        src, dst = f(ROLES[r], t), rep.at(i).get(of)
        out.append(('each-%s-count' % of, each(lambda i: rep.at(i).get(of).n == f(ROLES[r], val(mp, nm(i))).n)))
        d = dst.at(j)
        out.append(('each-%s' % of, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < rep.n, 0 <= j, j < dst.n), z3.And(
            d.get('weight') == wt(src, j), d.get('placeName') == c.f(P, 'm_name', pl(src, j)), d.get('transitionName') == nm(i), d.get('type') == kinds[r])),
            patterns=[z3.Select(a, j) for a in dst.arrs])))
    i, j = z3.Int(uid('ri')), z3.Int(uid('rj'))
    t = val(mp, nm(i))
    cs = f('m_additionalActivationConditions', t)
    a, b = rep.at(i).get('additionalConditionsNames'), rep.at(i).get('additionalConditions')
    out.append(('each-condition-count', each(lambda i: z3.And(rep.at(i).get('additionalConditionsNames').n == f('m_additionalActivationConditions', val(mp, nm(i))).n,
                                                              rep.at(i).get('additionalConditions').n == f('m_additionalActivationConditions', val(mp, nm(i))).n))))
    out.append(('each-conditions', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < rep.n, 0 <= j, j < a.n), z3.And(
        a.at(j) == cs.at(j).get('first'), b.at(j) == cs.at(j).get('second'))), patterns=[z3.Select(a.arrs[0], j), z3.Select(b.arrs[0], j)])))
    return out


def leafidx(sh, name):
    n = 0
    for f, s in sh.fields:
        if f == name:
            return n
        n += len(s.leaves())


def increment(c, m, k):
    mp = items(c, MBP, m)
    p = val(mp, k)
    inp = c.f(P, 'm_isInputPlace', p)
    c.req('executor-of-the-place-alive', z3.Implies(has(mp, k), place_ready(c, p)), 'disp')
    c.throws('InvalidNameException', z3.Not(has(mp, k)), 'inputs')
    c.throws('NotInputPlaceException', z3.And(has(mp, k), z3.Not(inp)), 'inputs')
    enter(c, p, z3.IntVal(1), z3.And(has(mp, k), inp))


# ---------------------------------------------------------------- registries
def registries(C):
    for cls in (MCA, MCC):
        def add(c, cls=cls):
            nm, fn = c.args
            m = c.this
            mp = items(c, cls, m)
            c.throws('InvalidFunctionNameException', nm == EMPTY, 'registry')
            c.throws('RepeatedFunctionException', z3.And(nm != EMPTY, has(mp, nm)), 'registry')
            map_put(c, cls, m, nm, fn, 'registry')
        C.add(Contract(cls + '::addItem', add))

        def get(c, cls=cls):
            nm, = c.args
            mp = items(c, cls, c.this)
            c.throws('InvalidFunctionNameException', z3.Or(nm == EMPTY, z3.Not(has(mp, nm))), 'registry')
            c.ret(val(mp, nm), FN, 'registry')
        C.add(Contract(cls + '::getItem', get))

        def gets(c, cls=cls):
            names, = c.args
            mp = items(c, cls, c.this)
            c.throws('InvalidFunctionNameException', z3.Not(all_j(names, lambda j: z3.And(names.at(j) != EMPTY, has(mp, names.at(j))))), 'registry')
            c.ret_any(SVec(pair_shape(c)))
            c.ensures('the-named-functions-in-order', lambda v: named_conditions(c, cls, names, c.result), 'registry')
        C.add(Contract(cls + '::getItems', gets))


def named_conditions(c, cls, names, res):
    mp = items(c, cls, c.this)
    return bound_to(mp, names, res)


def bound_to(mp, names, res):
    return z3.And(res.n == names.n, all_j(res, lambda j: z3.And(res.at(j).get('first') == names.at(j), res.at(j).get('second') == val(mp, names.at(j)))))


def pair_shape(c):
    return c.arrs(TR, 'm_additionalActivationConditions')[0].elem


def arc_enum(c, n):
    return enum(c, n)


# ---------------------------------------------------------------- the engine
def running(c, e):
    return c.f(EL, 'm_eventLoopThreadRunning', c.ex.sub(EI, 'm_eventLoop', e))


def engine(C):
    def create_exec(c):
        o, = c.args
        kinds = opt_enum(c)
        c.throws('PTN_Exception', z3.And(*[o != k for k in kinds.values()]), 'exec')
        c.ret_any(SRef(IEX, 'unique'))
        c.gmodifies('dyntype', lambda r: z3.Not(c.gs('allocated', r)), 'exec')
        c.gmodifies('alive', lambda r: z3.Not(c.gs('allocated', r)), 'exec')
        c.gmodifies('allocated', lambda r: z3.Not(c.gs('allocated', r)), 'any')
        c.ensures('executor-of-the-requested-kind', lambda v: exec_of_option(Vw(v, c), o, c.result), 'exec')
        c.ensures('executor-is-new', lambda v: z3.And(z3.Not(c.gs('allocated', c.result)), v.gs('allocated', c.result)), 'exec')
    C.add(Contract(FACT + '::createExecutor', create_exec))

    C.add(Contract(EI + '::isEventLoopRunning', lambda c: c.ret(running(c, c.this), BOOL, 'lifecycle')))
    C.add(Contract(EL + '::isRunning', lambda c: c.ret(c.f(EL, 'm_eventLoopThreadRunning', c.this), BOOL, 'lifecycle')))
    C.guards[(EL, 'm_eventLoopThreadRunning')] = ('atomic', None)

    def getopt(c):
        c.ret(c.f(EI, 'm_actionsThreadOption', c.this), INT64, 'report')
    C.add(Contract(EI + '::getActionsThreadOption', getopt))
    C.add(Contract(EI + '::getNewInputReceived', lambda c: c.ret(c.f(EI, 'm_newInputReceived', c.this), BOOL, 'inputs')))
    C.add(Contract(EI + '::setNewInputReceived', lambda c: c.set(EI, 'm_newInputReceived', c.this, c.args[0], 'inputs')))

    def clear_inputs(c):
        e = c.this
        pm, _ = sub_refs(c, e)
        keep(c, pm_inv, pm)
        c.update(P, 'm_numberOfTokens', lambda r: z3.If(z3.And(in_p(c, pm, r), c.f(P, 'm_isInputPlace', r)), z3.IntVal(0), c.f(P, 'm_numberOfTokens', r)), 'inputs')
        c.set(EI, 'm_newInputReceived', e, F, 'inputs')
    C.add(Contract(EI + '::clearInputPlaces', clear_inputs))

    def clear_net(c):
        e = c.this
        pm, tm = sub_refs(c, e)
        keep(c, eng_inv, e)
        c.throws('PTN_Exception', running(c, e), 'clear')
        k = z3.Const(uid('ck'), Str)
        for cls, m in ((MBP, pm), (MBT, tm)):
            c.modifies(cls, 'm_items', lambda r, m=m: r == m, 'clear')

            def empty(v, cls=cls, m=m):
                new = v.f(cls, 'm_items', m)
                return z3.And(new.n == 0, z3.ForAll([k], z3.Not(has(new, k)), patterns=[has(new, k)]))
            c.ensures('no-%s-left' % ('places' if cls == MBP else 'transitions'), empty, 'clear')
        c.modifies(PM, 'm_inputPlaces', lambda r: r == pm, 'clear')
        establish(c, eng_inv, e)
    C.add(Contract(EI + '::clearNet', clear_net))

    def create_place(c):
        e = c.this
        pr, = c.args
        pm, tm = sub_refs(c, e)
        keep(c, eng_inv, e)
        mp = items(c, MBP, pm)
        acts = items(c, MCA, c.ex.sub(EI, 'm_actions', e))
        nm, en, xn = pr.get('name'), pr.get('onEnterActionFunctionName'), pr.get('onExitActionFunctionName')
        missing = lambda s: z3.And(s != EMPTY, z3.Not(has(acts, s)))
        nocall = lambda s: z3.And(s != EMPTY, has(acts, s), val(acts, s) == 0)
        unknown = z3.Or(missing(en), missing(xn))
        c.throws('InvalidFunctionNameException', unknown, 'bind')
        empty_fn = z3.And(z3.Not(unknown), z3.Or(nocall(en), nocall(xn)))
        c.throws('PTN_Exception', z3.Or(empty_fn, z3.And(z3.Not(unknown), z3.Not(empty_fn), nm == EMPTY)), 'build')
        c.throws('RepeatedPlaceException', z3.And(z3.Not(unknown), z3.Not(empty_fn), nm != EMPTY, has(mp, nm)), 'build')
        c.splits = [nm]
        new = lambda v: v.f(MBP, 'm_items', pm).val(nm)
        c.modifies(MBP, 'm_items', lambda r: r == pm, 'build')
        c.modifies(PM, 'm_inputPlaces', lambda r: r == pm, 'build')
        fresh = lambda r: z3.Not(c.gs('allocated', r))
        for f in ('m_name', 'm_onEnterAction', 'm_onEnterActionName', 'm_onExitAction', 'm_onExitActionName', 'm_numberOfTokens', 'm_isInputPlace', 'm_actionsExecutor',
                  'm_blockStartingOnEnterActions', 'm_onEnterActionsInExecution', 'm_onExitActionsInExecution'):
            c.modifies(P, f, fresh, 'build')
        for g in ('alive', 'dyntype', 'allocated'):
            c.gmodifies(g, fresh, 'any')
        kk = z3.Const(uid('mk'), Str)

        def only(v):
            m2 = v.f(MBP, 'm_items', pm)
            return z3.And(m2.n == mp.n + 1, z3.ForAll([kk], z3.And(has(m2, kk) == z3.Or(kk == nm, has(mp, kk)), z3.Implies(z3.And(has(m2, kk), kk != nm), val(m2, kk) == val(mp, kk))),
                                                     patterns=[has(m2, kk), has(mp, kk)]))
        c.ensures('exactly-one-place-added', only, 'build')
        c.ensures('the-place-is-new', lambda v: z3.And(new(v) > 0, fresh(new(v))), 'build')
        c.ensures('name-and-kind-as-given', lambda v: z3.And(v.f(P, 'm_name', new(v)) == nm, v.f(P, 'm_isInputPlace', new(v)) == pr.get('input')), 'build')
        c.ensures('starts-with-the-given-tokens', lambda v: v.f(P, 'm_numberOfTokens', new(v)) == pr.get('initialNumberOfTokens'), 'build')
        c.ensures('starts-unblocked-with-no-action-in-execution', lambda v: z3.And(z3.Not(v.f(P, 'm_blockStartingOnEnterActions', new(v))), v.f(P, 'm_onEnterActionsInExecution', new(v)) == 0), 'build')
        for a, s, given in (('m_onEnterAction', en, 'onEnterAction'), ('m_onExitAction', xn, 'onExitAction')):
            c.ensures('%s-bound-by-name' % a[2:], lambda v, a=a, s=s, given=given: z3.And(v.f(P, a + 'Name', new(v)) == s,
                      v.f(P, a, new(v)) == z3.If(s != EMPTY, val(acts, s), pr.get(given))), 'bind')
        establish(c, eng_inv, e)
    C.add(Contract(EI + '::createPlace', create_place))

    six = lambda d: len([x for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl']) == 6

    def new_transition(c, e, nm, A, D, H, conds_fn, n_conds, req, extra=None, pre=T):
        """The six-argument overload's effect; conds_fn(result vector view) -> formula."""
        pm, tm = sub_refs(c, e)
        tp, mp = items(c, MBT, tm), items(c, MBP, pm)
        vs = {'A': A, 'D': D, 'H': H}
        nonm = lambda v: all_j(v, lambda j: has(mp, pn(v, j)), leafidx(v.shape.elem, 'placeName'))
        known = z3.And(*[nonm(v) for v in vs.values()])
        dis = {r: distinct(v, leafidx(v.shape.elem, 'placeName')) for r, v in vs.items()}
        pos = z3.And(*[all_j(v, lambda j: v.at(j).get('weight') != 0, leafidx(v.shape.elem, 'weight')) for v in vs.values()])
        dup = has(tp, nm)
        base = z3.And(pre, z3.Not(dup), known)
        alld = z3.And(dis['A'], dis['D'], dis['H'])
        c.throws('ActivationPlaceRepetitionException', z3.And(base, z3.Not(dis['A'])), 'build')
        c.throws('DestinationPlaceRepetitionException', z3.And(base, dis['A'], z3.Not(dis['D'])), 'build')
        c.throws('InhibitorPlaceRepetitionException', z3.And(base, dis['A'], dis['D'], z3.Not(dis['H'])), 'build')
        c.throws('ZeroValueWeightException', z3.And(base, alld, z3.Not(pos)), 'build')
        c.throws('PTN_Exception', z3.And(pre, z3.Or(dup, z3.Not(known), z3.And(alld, pos, nm == EMPTY))), 'build')
        c.splits = [nm]
        new = lambda v: v.f(MBT, 'm_items', tm).val(nm)
        c.modifies(MBT, 'm_items', lambda r: r == tm, 'build')
        fresh = lambda r: z3.Not(c.gs('allocated', r))
        for f in ('m_name', 'm_activationArcs', 'm_destinationArcs', 'm_inhibitorArcs', 'm_additionalActivationConditions', 'm_requireNoActionsInExecution'):
            c.modifies(TR, f, fresh, 'build')
        for g in ('alive', 'dyntype', 'allocated'):
            c.gmodifies(g, fresh, 'any')
        kk = z3.Const(uid('mk'), Str)

        def only(v):
            m2 = v.f(MBT, 'm_items', tm)
            return z3.And(m2.n == tp.n + 1, z3.ForAll([kk], z3.And(has(m2, kk) == z3.Or(kk == nm, has(tp, kk)), z3.Implies(z3.And(has(m2, kk), kk != nm), val(m2, kk) == val(tp, kk))),
                                                     patterns=[has(m2, kk), has(tp, kk)]))
        c.ensures('exactly-one-transition-added', only, 'build')
        c.ensures('the-transition-is-new', lambda v: z3.And(new(v) > 0, fresh(new(v))), 'build')
        c.ensures('name-and-gate-as-given', lambda v: z3.And(v.f(TR, 'm_name', new(v)) == nm, v.f(TR, 'm_requireNoActionsInExecution', new(v)) == req), 'build')
        for r, vec in vs.items():
            def arcs(v, r=r, vec=vec):
                a = v.f(TR, ROLES[r], new(v))
                return z3.And(a.n == vec.n, all_j(a, lambda j: z3.And(pl(a, j) == val(mp, pn(vec, j)), wt(a, j) == vec.at(j).get('weight'))))
            c.ensures('arcs-%s-as-given' % r, arcs, 'build')
        c.ensures('conditions-as-given', lambda v: conds_fn(v.f(TR, 'm_additionalActivationConditions', new(v))), 'bind')

    def pn(v, j):
        return v.at(j).get('placeName')

    def create6(c):
        nm, A, D, H, conds, req = c.args
        keep(c, eng_inv, c.this)
        new_transition(c, c.this, nm, A, D, H, lambda r: veq(r.shape, r, conds), conds.n, req)
        establish(c, eng_inv, c.this)
    C.add(Contract(EI + '::createTransition', create6, match=six))

    def create1(c):
        tp, = c.args
        e = c.this
        keep(c, eng_inv, e)
        cm = items(c, MCC, c.ex.sub(EI, 'm_conditions', e))
        names, fns = tp.get('additionalConditionsNames'), tp.get('additionalConditions')
        known = all_j(names, lambda j: z3.And(names.at(j) != EMPTY, has(cm, names.at(j))))
        c.throws('InvalidFunctionNameException', z3.Not(known), 'bind')

        def conds(r):
            anon = z3.And(r.n == fns.n, all_j(r, lambda j: z3.And(r.at(j).get('first') == EMPTY, r.at(j).get('second') == fns.at(j))))
            return z3.If(names.n > 0, bound_to(cm, names, r), anon)
        new_transition(c, e, tp.get('name'), tp.get('activationArcs'), tp.get('destinationArcs'), tp.get('inhibitorArcs'), conds, None,
                       tp.get('requireNoActionsInExecution'), pre=known)
        establish(c, eng_inv, e)
    C.add(Contract(EI + '::createTransition', create1, match=lambda d: not six(d)))

    def register(c, cls, field):
        nm, fn = c.args
        m = c.ex.sub(EI, field, c.this)
        mp = items(c, cls, m)
        c.throws('InvalidFunctionNameException', nm == EMPTY, 'registry')
        c.throws('RepeatedFunctionException', z3.And(nm != EMPTY, has(mp, nm)), 'registry')
        map_put(c, cls, m, nm, fn, 'registry')
    C.add(Contract(EI + '::registerAction', lambda c: register(c, MCA, 'm_actions')))
    C.add(Contract(EI + '::registerCondition', lambda c: register(c, MCC, 'm_conditions')))

    def tokens(c):
        pm, _ = sub_refs(c, c.this)
        keep(c, pm_inv, pm)
        mp = items(c, MBP, pm)
        c.throws('InvalidNameException', z3.Not(has(mp, c.args[0])), 'report')
        c.ret(c.f(P, 'm_numberOfTokens', val(mp, c.args[0])), UINT64, 'report')
    C.add(Contract(EI + '::getNumberOfTokens', tokens))

    def incr(c):
        e = c.this
        pm, _ = sub_refs(c, e)
        keep(c, eng_inv, e)
        increment(c, pm, c.args[0])
        c.set(EI, 'm_newInputReceived', e, T, 'inputs')
        el = c.ex.sub(EI, 'm_eventLoop', e)
        c.gset1('wakeups', el, c.gs('wakeups', el) + 1, 'inputs')
    C.ghosts['wakeups'] = AI
    C.add(Contract(EI + '::incrementInputPlace', incr))

    def notify(c):
        el = c.this
        c.gset1('wakeups', el, c.gs('wakeups', el) + 1, 'inputs')
    C.add(Contract(EL + '::notifyNewEvent', notify))
    C.call_sites[(EI + '::incrementInputPlace', EL + '::notifyNewEvent')] = lambda ex, pre, this, args: [
        ('new-input-flag-set-before-waking-the-loop', pre.f(EI, 'm_newInputReceived', z3.Const('this', I)), 'inputs')]

    # the flag is only cleared before the transitions are looked at (an input that arrives later stays recorded),
    # and set only once the token is there (or the loop could take the flag and miss the token)
    C.ghosts['looked'] = B
    C.unobserved.add(('ghost', 'looked'))
    C.entries.append(lambda ex, v, this, unit: [z3.Not(v.g('looked'))] if unit == EI + '::executeInt' else [])
    for f in (EI + '::enabledTransitions', TM + '::collectEnabledTransitionsRandomly', TR + '::isEnabled', TR + '::execute'):
        C.after_call[(EI + '::executeInt', f)] = [lambda ex, st, rv: ex.set_ghost(st, 'looked', T)]

    def flag_written(ex, v, value):
        if ex.unit == EI + '::executeInt':
            return [('new-input-flag-cleared-only-before-the-transitions-are-looked-at', z3.Or(value, z3.Not(v.g('looked'))), 'inputs')]
        if ex.unit == EI + '::incrementInputPlace':
            c = ex.ctx
            p = val(items(c, MBP, sub_refs(c, c.this)[0]), c.args[0])
            return [('new-input-flag-set-only-once-the-token-is-there', z3.Implies(value, v.f(P, 'm_numberOfTokens', p) == c.f(P, 'm_numberOfTokens', p) + 1), 'inputs')]
        return []

    def flag_hook(ex, ref, value, st, node):
        for nm, fo, asp in flag_written(ex, View(ex, st), value):
            ex.oblige(st, nm, fo, {asp}, node, 'order')
    C.write_hooks[(EI, 'm_newInputReceived')] = flag_hook
    for u in ('executeInt', 'incrementInputPlace'):
        C.call_sites[(EI + '::' + u, EI + '::setNewInputReceived')] = lambda ex, pre, this, args: flag_written(ex, pre, args[0])

    def setopt(c):
        e = c.this
        o, = c.args
        pm, _ = sub_refs(c, e)
        keep(c, eng_inv, e)
        run = running(c, e)
        same = c.f(EI, 'm_actionsThreadOption', e) == o
        kinds = opt_enum(c)
        c.throws('PTN_Exception', z3.Or(run, z3.And(z3.Not(same), z3.And(*[o != k for k in kinds.values()]))), 'exec')
        c.set(EI, 'm_actionsThreadOption', e, o, 'exec')
        c.modifies(EI, 'm_actionsExecutor', lambda r: r == e, 'exec')
        c.ensures('executor-kept-when-the-option-is-unchanged', lambda v: z3.Implies(same, v.f(EI, 'm_actionsExecutor', e) == c.f(EI, 'm_actionsExecutor', e)), 'exec')
        c.modifies(P, 'm_actionsExecutor', lambda r: in_p(c, pm, r), 'exec')
        fresh = lambda r: z3.Not(c.gs('allocated', r))
        for g in ('alive', 'dyntype', 'allocated'):
            c.gmodifies(g, fresh, 'any')
        establish(c, eng_inv, e, asp='exec')
    C.add(Contract(EI + '::setActionsThreadOption', setopt))

    def print_state(c):
        pm, _ = sub_refs(c, c.this)
        keep(c, pm_inv, pm)
    C.add(Contract(EI + '::printState', print_state))

    def sweep(c):
        e = c.this
        pm, tm = sub_refs(c, e)
        keep(c, eng_inv, e)
        en = lambda n: c.g(n)
        c.modifies(P, 'm_numberOfTokens', None, 'frame')
        c.modifies(P, 'm_onEnterActionsInExecution', None, 'any')
        c.modifies(P, 'm_onExitActionsInExecution', None, 'any')
        c.set(EI, 'm_newInputReceived', e, F, 'sweep')
        for g in ('denter', 'dexit', 'fnE', 'fnX', 'exE', 'exX', 'tokE', 'tokX', 'exitsSeen', 'nEnter'):
            c.gmodifies(g, None, 'any')
        for g in ('trace', 'traceFired', 'nTrace', 'firings'):
            c.gmodifies(g, None, 'sweep')
        n0, f0 = c.g('nTrace'), c.g('firings')
        c.ret_any(BOOL)
        c.throw_modifies((P, 'm_numberOfTokens'), (P, 'm_onEnterActionsInExecution'), (P, 'm_onExitActionsInExecution'), (EI, 'm_newInputReceived'),
                         *[('ghost', g) for g in ('denter', 'dexit', 'fnE', 'fnX', 'exE', 'exX', 'tokE', 'tokX', 'exitsSeen', 'nEnter', 'trace', 'traceFired', 'nTrace', 'firings')])
        c.may_throw('OverflowException', T, 'any')
        c.may_throw('PTN_Exception', T, 'any')
        c.may_throw('user_exception', T, 'any')
        i, j = z3.Int(uid('ti')), z3.Int(uid('tj'))
        tr = lambda v, i: z3.Select(v.g('trace'), i)
        rng = lambda v, i: z3.And(n0 <= i, i < v.g('nTrace'))
        mp = items(c, MBT, tm)
        c.ensures('attempts-only-enabled-transitions-of-the-net', lambda v: z3.ForAll([i], z3.Implies(rng(v, i), z3.And(in_t(c, tm, tr(v, i)), enabled(c, tr(v, i)))), patterns=[tr(v, i)]), 'sweep')
        c.ensures('attempts-each-at-most-once', lambda v: z3.ForAll([i, j], z3.Implies(z3.And(rng(v, i), rng(v, j), i < j), tr(v, i) != tr(v, j)), patterns=[z3.MultiPattern(tr(v, i), tr(v, j))]), 'sweep')
        c.ensures('attempts-every-enabled-transition', lambda v: all_keys(mp, lambda k: z3.Implies(enabled(c, val(mp, k)), z3.Not(
            z3.ForAll([i], z3.Implies(rng(v, i), tr(v, i) != val(mp, k)), patterns=[tr(v, i)])))), 'sweep')
        c.ensures('true-exactly-when-something-fired', lambda v: c.result == (v.g('firings') > f0), 'sweep')
        c.ensures('no-firing-no-token-moved', lambda v: z3.Implies(z3.Not(c.result), same_tokens(c, v)), 'sweep')
        c.ensures('false-only-when-nothing-can-fire', lambda v: z3.Implies(z3.Not(c.result), all_keys(mp, lambda k: z3.Not(z3.And(enabled(c, val(mp, k)), conditions_ok(c, val(mp, k)),
                  z3.Not(c.f(TR, 'm_requireNoActionsInExecution', val(mp, k))))))), 'sweep')
        c.ensures('places-stay-unblocked', lambda v: no_block(v), 'sweep')
    C.add(Contract(EI + '::executeInt', sweep))

    def sweep_inv(ex, base, s):
        b, v = View(ex, base), View(ex, s)
        f0, f1 = b.g('firings'), v.g('firings')
        out = [f1 >= f0, z3.Implies(f1 == f0, same_tokens(b, v)), no_block(v)]
        i = z3.Int(uid('ti'))
        tr = z3.Select(v.g('trace'), i)
        out.append(z3.Implies(f1 == f0, z3.ForAll([i], z3.Implies(z3.And(b.g('nTrace') <= i, i < v.g('nTrace')), z3.Not(z3.And(
            enabled(b, tr), conditions_ok(b, tr), z3.Not(b.f(TR, 'm_requireNoActionsInExecution', tr))))), patterns=[tr])))
        for cid in sorted(base.cells):
            x, y = base.cells[cid], s.cells.get(cid)
            if z3.is_expr(x) and z3.is_bool(x) and y is not None:
                out.append(y == z3.Or(x, f1 > f0))
        return out
    C.loop_invs[EI + '::executeInt'] = sweep_inv

    def enabled_list(c):
        e = c.this
        pm, tm = sub_refs(c, e)
        keep(c, tm_inv, tm)
        for nm, fo in flat_twf(c, tm):
            c.req(nm, fo, 'wf')
        c.ret_any(SVec(SRef(TR, 'weak')))
        establish_rep(c, sweep_list, tm, 3, 'sweep')
    C.add(Contract(EI + '::enabledTransitions', enabled_list))

    def arc(c, adding):
        e = c.this
        ap, = c.args
        pm, tm = sub_refs(c, e)
        keep(c, eng_inv, e)
        mp, tp = items(c, MBP, pm), items(c, MBT, tm)
        p, t = val(mp, ap.get('placeName')), val(tp, ap.get('transitionName'))
        ok = z3.And(z3.Not(running(c, e)), has(mp, ap.get('placeName')), has(tp, ap.get('transitionName')))
        c.throws('PTN_Exception', z3.Not(ok), 'arcs')
        if adding:
            add_arc(c, t, p, ap.get('type'), ap.get('weight'), ok)
        else:
            remove_arc(c, t, p, ap.get('type'), ok)
        establish(c, eng_inv, e)
    C.add(Contract(EI + '::addArc', lambda c: arc(c, True)))
    C.add(Contract(EI + '::removeArc', lambda c: arc(c, False)))

    def pprops(c):
        pm, _ = sub_refs(c, c.this)
        keep(c, pm_inv, pm)
        c.ret_any(SVec(c.ex.types.shape('ptne::PlaceProperties')))
        establish_rep(c, report_places, items(c, MBP, pm), 3)
    C.add(Contract(EI + '::getPlacesProperties', pprops))

    def tprops(c):
        _, tm = sub_refs(c, c.this)
        keep(c, tm_inv, tm)
        for nm, fo in flat_twf(c, tm):
            c.req(nm, fo, 'wf')
        c.ret_any(SVec(c.ex.types.shape('ptne::TransitionProperties')))
        establish_rep(c, report_transitions, items(c, MBT, tm), 9)
    C.add(Contract(EI + '::getTransitionsProperties', tprops))


def same_tokens(c, v):
    r = z3.Int(uid('st'))
    a, b = c.arrs(P, 'm_numberOfTokens')[1][0], v.arrs(P, 'm_numberOfTokens')[1][0]
    return z3.ForAll([r], z3.Select(a, r) == z3.Select(b, r), patterns=[z3.Select(a, r), z3.Select(b, r)])
