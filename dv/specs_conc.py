"""Contracts of the executors, the job queue, the event loop, and of the engine's public face."""
import z3
from core import *
from contracts import *
from specs_net import *
from specs_engine import *
from frontend import body_of

JQ, JQE = 'ptne::JobQueue', 'ptne::JobQueueExecutor'
STE, DTE = 'ptne::SingleThreadExecutor', 'ptne::DetachedExecutor'
PROXY = 'ptne::PTN_EngineImpProxy'
API = 'ptne::PTN_Engine'
JM = JQ + '::m_jobQueueMutex'


def one_obl(ex, st, name, goal, asp, n):
    ex.oblige(st, name, goal, {asp}, n, 'protocol')


def gget(ex, st, g, r=None):
    a = ex.ghost(st, g)
    return a if r is None else z3.Select(a, r)


def gput(ex, st, g, v, r=None):
    ex.set_ghost(st, g, v if r is None else z3.Store(ex.ghost(st, g), r, v))


def setup(C):
    C.ghosts.update({'acts': AI, 'nActs': I, 'actLocks': I,
                     'jAdded': z3.ArraySort(I, AI), 'nAdded': AI, 'nRan': AI, 'workers': AI,
                     'pushes': I, 'pushed': I, 'pops': I, 'popped': I, 'token': B, 'stopSeen': B, 'stopFresh': B, 'launchOK': B, 'spawnFailed': B,
                     'openThreads': I, 'joined': B, 'sealed': B, 'loopAlive': AI, 'jobsGiven': AI, 'lastJob': AI,
                     'sweeps': I, 'sleeps': I, 'idle': B})
    C.ghost_total |= {'acts', 'jAdded'}
    C.unobserved |= {('ghost', g) for g in ('jAdded', 'nAdded', 'nRan', 'workers', 'pops', 'popped', 'token', 'stopSeen', 'stopFresh', 'launchOK', 'spawnFailed', 'joined', 'sealed',
                                            'openThreads', 'pushes', 'pushed', 'actLocks', 'loopAlive', 'sweeps', 'sleeps', 'idle')}
    C.hooks['call_action'] = call_action
    C.hooks['on_deque'] = on_deque
    C.hooks['spawn'] = spawn
    C.hooks['thread_assign'] = thread_assign
    C.hooks['thread_method'] = thread_method
    C.hooks['stop_token'] = stop_token
    C.hooks['barrier'] = barrier
    C.hooks['barrier_waiter'] = lambda ex: ex.unit == EL + '::stop'
    C.hooks['notify'] = notify
    C.hooks['cv_wait'] = cv_wait
    C.hooks['turn'] = turn
    C.monitors[JM] = JobMonitor()
    C.fresh_ghosts = {EL: [('loopAlive', 0)], JQ: [('nAdded', 0), ('nRan', 0), ('workers', 0)]}
    C.guards[(JQ, 'm_jobQueue')] = ('lock', JM)
    C.guards[(JQ, 'm_isJobQueueRunning')] = ('atomic', None)
    C.guards[(JQ, 'm_isJobQueueActive')] = ('atomic', None)
    C.guards[(EL, 'm_sleepDuration')] = ('lock', EL + '::m_sleepDurationMutex')
    C.levels.update({EL + '::m_eventNotifierMutex': 70, EL + '::m_sleepDurationMutex': 70, PROXY + '::m_mutex': 10})
    C.wait_ok[JM] = []
    C.wait_ok[PROXY + '::m_mutex'] = [EL + '::run', TR + '::execute']
    executors(C)
    jobqueue(C)
    eventloop(C)
    lifetimes(C)
    engine2(C)
    facade(C)


# ---------------------------------------------------------------- hooks
def call_action(ex, f, vs, st, n):
    if ex.unit.startswith(JQ + '::'):
        q = z3.Const('this', I)
        one_obl(ex, st, 'job-run-is-the-one-taken', z3.And(gget(ex, st, 'pops') == gget(ex, st, 'nActs') + 1, gget(ex, st, 'popped') == f), 'fifo', n)
        one_obl(ex, st, 'job-run-by-the-worker-only', gget(ex, st, 'token'), 'fifo', n)
        one_obl(ex, st, 'job-run-without-the-queue-lock', z3.BoolVal(not any(h[0] == JM for h in st.held)), 'ORDER', n)
        gput(ex, st, 'stopFresh', F)
    k = gget(ex, st, 'nActs')
    gput(ex, st, 'acts', z3.Store(gget(ex, st, 'acts'), k, f))
    gput(ex, st, 'nActs', k + 1)
    if ex.unit in (STE + '::executeAction', DTE + '::executeAction', JQE + '::executeAction'):
        for lv, old in ex.watch:
            one_obl(ex, st, 'counted-while-the-action-runs', ex.rv(lv, st) == old + 1, 'count', n)
    return [(VOID, st)]


def dq(ex, st, q):
    sh, arrs = View(ex, st).arrs(JQ, 'm_jobQueue')
    return unpack(sh, [z3.Select(a, q) for a in arrs])


def jf(ex, st, field, q):
    return View(ex, st).f(JQ, field, q)


def add_side(ex):
    """Which end of the deque jobs enter at (the abstraction of the queue follows it)."""
    from loops import elements  # noqa
    ends = set()
    for q, ds in ex.prog.funcs.items():
        if q.startswith(JQ + '::'):
            for d in ds:
                for x in walk(body_of(d) or {}):
                    if x.get('kind') == 'MemberExpr' and x.get('name') in ('push_front', 'emplace_front', 'push_back', 'emplace_back'):
                        ends.add('front' if x['name'].endswith('front') else 'back')
    return 'back' if ends == {'back'} else 'front'


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st += x.get('inner', [])


def queue_inv(ex, st, q):
    v = dq(ex, st, q)
    na, nr = gget(ex, st, 'nAdded', q), gget(ex, st, 'nRan', q)
    j = z3.Int(uid('ij'))
    added = gget(ex, st, 'jAdded', q)
    src = na - 1 - j if add_side(ex) == 'front' else nr + j
    w = gget(ex, st, 'workers', q)
    return [('as-many-as-added-and-not-taken', z3.And(0 <= nr, v.n == na - nr, v.n >= 0)),
            ('jobs-in-order-of-arrival', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), v.at(j) == z3.Select(added, src)), patterns=[z3.Select(v.arrs[0], j)])),
            ('at-most-one-worker', z3.And(0 <= w, w <= 1, jf(ex, st, 'm_isJobQueueRunning', q) == (w == 1)))]


class JobMonitor:
    def on_acquire(self, ex, st, ref, mode):
        self.seal(ex, st, ref)
        old = {g: gget(ex, st, g, ref) for g in ('nAdded', 'nRan', 'workers', 'jAdded')}
        for f in ('m_jobQueue', 'm_isJobQueueRunning'):
            sh, arrs = View(ex, st).arrs(JQ, f)
            for i, l in enumerate(sh.leaves()):
                k = (JQ, f, i)
                st.heap[k] = z3.Store(ex.heapkey(st, k, z3.ArraySort(I, l)), ref, st.fresh('mon_' + f, l))
            for c in wf_val(sh, View(ex, st).f(JQ, f, ref)):
                st.assume(c)
        for g in old:
            gput(ex, st, g, st.fresh('mon_' + g, old[g].sort()), ref)
        st.assume(*[f for _, f in queue_inv(ex, st, ref)])
        k = z3.Int(uid('k'))
        a0, a1 = old['jAdded'], gget(ex, st, 'jAdded', ref)
        st.assume(gget(ex, st, 'nAdded', ref) >= old['nAdded'], gget(ex, st, 'nRan', ref) >= old['nRan'],
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < old['nAdded']), z3.Select(a1, k) == z3.Select(a0, k)), patterns=[z3.Select(a1, k)]))
        # whoever holds the worker's token is the only one who takes jobs or ends the worker
        st.assume(z3.Implies(gget(ex, st, 'token'), z3.And(gget(ex, st, 'workers', ref) == 1, gget(ex, st, 'nRan', ref) == old['nRan'])))

    def seal(self, ex, st, ref):
        # inactive at a time when the lock was held: whoever takes it later sees that and launches nothing
        if ex.unit == JQ + '::deactivate':
            gput(ex, st, 'sealed', z3.Or(gget(ex, st, 'sealed'), z3.Not(jf(ex, st, 'm_isJobQueueActive', ref))))

    def on_release(self, ex, st, ref, mode, node):
        self.seal(ex, st, ref)
        run = jf(ex, st, 'm_isJobQueueRunning', ref)
        if ex.unit == JQ + '::run':
            # the worker gives its token back when it reports that it no longer runs
            tok = gget(ex, st, 'token')
            gone = z3.And(tok, z3.Not(run))
            gput(ex, st, 'workers', z3.If(gone, z3.IntVal(0), gget(ex, st, 'workers', ref)), ref)
            one_obl(ex, st, 'worker-leaves-no-job-behind', z3.Implies(gone, z3.Or(dq(ex, st, ref).n == 0, gget(ex, st, 'stopSeen'))), 'fifo', node)
            gput(ex, st, 'token', z3.And(tok, run))
        for nm, f in queue_inv(ex, st, ref):
            one_obl(ex, st, 'queue.' + nm, f, 'fifo', node)
        # (activating takes the jobs up only once the queue is active)
        off = F if ex.unit == JQ + '::activate' else z3.Not(jf(ex, st, 'm_isJobQueueActive', ref))
        gput(ex, st, 'launchOK', z3.Or(run, off, dq(ex, st, ref).n == 0, gget(ex, st, 'spawnFailed')))


def on_deque(ex, lv, op, x, st, n):
    if not (isinstance(lv, LHeap) and lv.cls == JQ and lv.field == 'm_jobQueue'):
        return
    q = lv.ref
    if op.startswith('push'):
        na = gget(ex, st, 'nAdded', q)
        gput(ex, st, 'jAdded', z3.Store(gget(ex, st, 'jAdded', q), na, x), q)
        gput(ex, st, 'nAdded', na + 1, q)
        gput(ex, st, 'pushes', gget(ex, st, 'pushes') + 1)
        gput(ex, st, 'pushed', x)
    else:
        nr = gget(ex, st, 'nRan', q)
        one_obl(ex, st, 'previous-job-finished-before-the-next-is-taken', gget(ex, st, 'pops') == gget(ex, st, 'nActs'), 'fifo', n)
        one_obl(ex, st, 'no-job-taken-after-a-stop-request', gget(ex, st, 'stopFresh'), 'stop', n)
        gput(ex, st, 'popped', z3.Select(gget(ex, st, 'jAdded', q), nr))
        gput(ex, st, 'nRan', nr + 1, q)
        gput(ex, st, 'pops', gget(ex, st, 'pops') + 1)


def thread_entry(ex, f, n):
    """The member function a thread runs, with the object it runs on."""
    if isinstance(f, PyFn) and f.name == 'bind_front' and f.data:
        x = f.data[0]
        x = x.target if isinstance(x, Ptr) else x
        node = getattr(x, 'node', None)
        rd = (node or {}).get('referencedDecl') or {}
        return rd.get('name')
    if isinstance(f, Closure):
        names = {x.get('name') for x in walk(f.node) if x.get('kind') == 'MemberExpr' and x.get('referencedMemberDecl')}
        for nm in ('run',):
            if nm in names:
                return nm
    raise Unsupported('thread body', n)


def outlived(ex, st, cls, thread, uses, asp, n):
    """What a thread still uses when the destructor of its object joins it is destroyed after it: declared before it.
    (Members are destroyed in the reverse of their declaration; a destructor with a body of its own may end the thread itself.)"""
    ds = ex.prog.funcs.get(cls + '::~' + last(cls), [])
    if any((body_of(d) or {}).get('inner') for d in ds):
        return
    names = [f['name'] for f in ex.prog.fields.get(cls, [])]
    if thread not in names:
        raise Unsupported('the thread of ' + cls, n)
    for u in uses:
        if u in names:
            one_obl(ex, st, '%s-outlives-the-thread' % u, z3.BoolVal(names.index(u) < names.index(thread)), asp, n)


def spawn(ex, kind, f, args, st, n):
    q = z3.Const('this', I)
    jt = Struct(JTHREAD, {'joinable': T, 'stopstate': F})
    if ex.unit == DTE + '::executeAction':
        if isinstance(f, z3.ExprRef):
            f = ex.closure_of(f) or f
        gput(ex, st, 'openThreads', gget(ex, st, 'openThreads') + 1)
        given_job(ex, st, f, n)
        return [(jt, st)]
    if ex.unit.startswith(JQ + '::'):
        if thread_entry(ex, f, n) != 'run':
            raise Unsupported('thread body', n)
        outlived(ex, st, JQ, 'm_workerThread', [f['name'] for f in ex.prog.fields[JQ] if f['name'] != 'm_workerThread'], 'stop', n)
        one_obl(ex, st, 'worker-launched-under-the-queue-lock', z3.BoolVal(any(h[0] == JM for h in st.held)), 'fifo', n)
        one_obl(ex, st, 'worker-launched-only-when-none-runs', gget(ex, st, 'workers', q) == 0, 'fifo', n)
        one_obl(ex, st, 'worker-launched-only-while-active', jf(ex, st, 'm_isJobQueueActive', q), 'stop', n)
        bad = st.copy()
        gput(ex, bad, 'spawnFailed', T)
        gput(ex, st, 'workers', z3.IntVal(1), q)
        return [(Exc('std::system_error', None, n), bad), (jt, st)]
    if ex.unit == EL + '::start':
        if thread_entry(ex, f, n) != 'run':
            raise Unsupported('thread body', n)
        v = View(ex, st)
        outlived(ex, st, EL, 'm_eventLoopThread', ['m_barrier'], 'lifecycle', n)
        one_obl(ex, st, 'one-loop-at-a-time', gget(ex, st, 'loopAlive', q) == 0, 'lifecycle', n)
        one_obl(ex, st, 'running-set-before-the-loop-starts', v.f(EL, 'm_eventLoopThreadRunning', q), 'lifecycle', n)
        one_obl(ex, st, 'barrier-ready-before-the-loop-starts', v.f(EL, 'm_barrier', q) != 0, 'lifecycle', n)
        gput(ex, st, 'loopAlive', z3.IntVal(1), q)
        ex.trusted.add('starting the event loop thread succeeds')
        return [(jt, st)]
    raise Unsupported('thread', n)


def thread_assign(ex, lv, r, st, n):
    old = ex.read(lv, st, n)
    if not z3.is_false(simp(old.get('joinable'))):
        s2 = st.copy()
        if ex.feasible(s2, old.get('joinable')):
            if lv.cls == JQ:
                ex.blocking(st, 'join', n)
            else:
                one_obl(ex, st, 'previous-thread-joined-before-a-new-one', z3.Not(old.get('joinable')), 'lifecycle', n)
    ex.write(lv, r, st, n)
    return [(lv, st)]


def thread_method(ex, o, v, name, vs, st, n):
    put = lambda **kw: ex.write(o, Struct(JTHREAD, {k: kw.get(k, v.get(k)) for k in ('joinable', 'stopstate')}), st, n)
    if name == 'joinable':
        if ex.unit == JQ + '::deactivate' and isinstance(o, LHeap) and o.cls == JQ:
            one_obl(ex, st, 'worker-looked-for-only-after-new-launches-are-ruled-out', gget(ex, st, 'sealed'), 'stop', n)
        return [(v.get('joinable'), st)]
    if name == 'request_stop':
        put(stopstate=T)
        return [(st.fresh('requested', B), st)]
    if name == 'get_stop_token':
        return [(Opaque('stop_token', possible=v.get('joinable'), requested=v.get('stopstate')), st)]
    if name == 'detach':
        one_obl(ex, st, 'safe.detach-of-a-joinable-thread', v.get('joinable'), 'SAFE', n)
        gput(ex, st, 'openThreads', gget(ex, st, 'openThreads') - 1)
        put(joinable=F)
        return [(VOID, st)]
    if name == 'join':
        one_obl(ex, st, 'safe.join-of-a-joinable-thread', v.get('joinable'), 'SAFE', n)
        ex.blocking(st, 'join', n)
        if isinstance(o, LHeap) and o.cls == JQ:
            q = o.ref
            one_obl(ex, st, 'joined-only-after-new-launches-are-ruled-out', z3.And(gget(ex, st, 'sealed'), z3.Not(jf(ex, st, 'm_isJobQueueActive', q))), 'stop', n)
            one_obl(ex, st, 'worker-asked-to-stop-before-the-join', v.get('stopstate'), 'stop', n)
            gput(ex, st, 'workers', z3.IntVal(0), q)
            gput(ex, st, 'joined', T)
        if isinstance(o, LHeap) and o.cls == EL:
            gput(ex, st, 'loopAlive', z3.IntVal(0), o.ref)
        put(joinable=F)
        return [(VOID, st)]
    raise Unsupported('thread member ' + name, n)


def stop_token(ex, v, name, vs, st, n):
    if name == 'stop_possible':
        p = getattr(v, 'possible', None)
        return [(p if p is not None else st.fresh('possible', B), st)]
    if name == 'stop_requested':
        p = getattr(v, 'requested', None)
        if p is not None:
            return [(p, st)]
        b = st.fresh('stopRequested', B)
        st.assume(z3.Implies(gget(ex, st, 'stopSeen'), b))      # a stop request is never taken back
        gput(ex, st, 'stopSeen', z3.Or(gget(ex, st, 'stopSeen'), b))
        gput(ex, st, 'stopFresh', z3.Not(b))
        return [(b, st)]
    raise Unsupported('stop_token ' + name, n)


def barrier(ex, v, st, n):
    q = z3.Const('this', I)
    view = View(ex, st)
    if ex.unit == EL + '::run':
        one_obl(ex, st, 'not-running-before-meeting-the-stopper', z3.Not(view.f(EL, 'm_eventLoopThreadRunning', q)), 'lifecycle', n)
        one_obl(ex, st, 'loop-ends-only-on-a-stop-request', gget(ex, st, 'stopSeen'), 'lifecycle', n)
        gput(ex, st, 'loopAlive', z3.IntVal(0), q)
        return [(VOID, st)]
    if ex.unit == EL + '::stop':
        th = view.f(EL, 'm_eventLoopThread', q)
        one_obl(ex, st, 'stop-requested-before-waiting', th.get('stopstate'), 'lifecycle', n)
        # run() has cleared the flag and ended its last sweep before it arrives here
        ex.write(LHeap(EL, q, 'm_eventLoopThreadRunning', BOOL), F, st, n)
        gput(ex, st, 'loopAlive', z3.IntVal(0), q)
        return [(VOID, st)]
    raise Unsupported('barrier', n)


def notify(ex, lv, name, st, n):
    if isinstance(lv, LHeap) and lv.cls == EL:
        under = any(h[0] == EL + '::m_eventNotifierMutex' for h in st.held)
        one_obl(ex, st, 'loop-notified-under-its-mutex', z3.BoolVal(under), 'inputs', n)
        gput(ex, st, 'wakeups', gget(ex, st, 'wakeups', lv.ref) + 1, lv.ref)
    return [(VOID, st)]


def cv_wait(ex, lv, name, pred, st, n):
    """The loop's sleep ends at once when there is new input."""
    if not (isinstance(lv, LHeap) and lv.cls == EL):
        return
    if pred is None:
        one_obl(ex, st, 'sleep-checks-for-new-input', F, 'inputs', n)
        return
    one_obl(ex, st, 'the-loop-sleeps-only-after-a-sweep-that-fired-nothing', gget(ex, st, 'idle'), 'sweeps', n)
    gput(ex, st, 'idle', F)
    gput(ex, st, 'sleeps', gget(ex, st, 'sleeps') + 1)
    v = View(ex, st)
    e = v.f(EL, 'm_ptnEngine', z3.Const('this', I))
    flag = v.f(EI, 'm_newInputReceived', e)
    for r, s in ex.call_value(pred, [], st.copy(), n):
        if not isinstance(r, Exc):
            one_obl(ex, s, 'new-input-ends-the-sleep', z3.Implies(flag, ex.truth(ex.rv(r, s), s, n)), 'inputs', n)


def turn(ex, begin, end, n):
    """The event loop does not go round without sweeping the transitions or sleeping (and it sleeps only once swept)."""
    if ex.unit == EL + '::run':
        done = lambda s: gget(ex, s, 'sweeps') + gget(ex, s, 'sleeps')
        one_obl(ex, end, 'every-turn-of-the-loop-sweeps-or-sleeps', done(end) > done(begin), 'sweeps', n)


# ---------------------------------------------------------------- executors
def given_job(ex, st, f, n):
    """The job handed over, run later: it must run the action once and then count it as finished."""
    ctx = ex.jobctx
    if not isinstance(f, Closure):
        raise Unsupported('job that is not a closure', n)
    lv, action = ctx['counter'], ctx['action']
    s = st.copy()
    s.held = []
    c0 = s.fresh('later', I)
    s.assume(1 <= c0, c0 <= MAX)
    ex.write(lv, c0, s, n)
    n0 = gget(ex, s, 'nActs')
    one_obl(ex, st, 'counted-before-the-job-is-handed-over', ex.rv(lv, st) == ctx['old'] + 1, 'count', n)
    for did, x in f.env.items():
        if isinstance(x, LCell) and x.id not in ctx['outer']:
            one_obl(ex, st, 'job-keeps-no-reference-to-a-local', F, 'SAFE', n)
    watch, ex.watch = ex.watch, [(lv, c0 - 1)]
    runs = ex.call_value(f, [], s, n)
    ex.watch = watch
    for r, s2 in runs:
        if isinstance(r, Exc):
            one_obl(ex, s2, 'job-raises-nothing', F, 'once', n)
            continue
        one_obl(ex, s2, 'job-runs-the-action-exactly-once', z3.And(gget(ex, s2, 'nActs') == n0 + 1, z3.Select(gget(ex, s2, 'acts'), n0) == action), 'once', n)
        one_obl(ex, s2, 'job-counted-as-finished-afterwards', ex.rv(lv, s2) == c0 - 1, 'count', n)
    gput(ex, st, 'jobsGiven', gget(ex, st, 'jobsGiven', z3.IntVal(0)) + 1, z3.IntVal(0))


def executors(C):
    def base(c):
        fn, counter = c.args
        ex = c.ex
        a = ex.coerce(ex.rv(fn, c.st), FN, c.new)
        old = ex.rv(counter, c.st)
        c.req('action-callable', a != 0, 'wf')
        c.req('counter-below-its-maximum', z3.And(0 <= old, old < MAX), 'wf')
        ex.watch = [(counter, old)]
        ex.jobctx = dict(counter=counter, action=a, old=old, outer={x.id for x in (fn, counter) if isinstance(x, LCell)})
        return a, counter, old

    def single(c):
        a, lv, old = base(c)
        n0 = c.g('nActs')
        c.gset('nActs', n0 + 1, 'once')
        c.gset('acts', z3.Store(c.g('acts'), n0, a), 'once')
        c.ensures('count-back-to-before', lambda v: c.ex.rv(lv, v.st) == old, 'count')
    C.add(Contract(STE + '::executeAction', single, keep_lvalues=True))

    def handover(c):
        a, lv, old = base(c)
        c.gmodifies('jobsGiven', lambda r: r == 0, 'once')
        c.ensures('exactly-one-job-handed-over', lambda v: v.gs('jobsGiven', z3.IntVal(0)) == c.gs('jobsGiven', z3.IntVal(0)) + 1, 'once')
        c.ensures('action-counted-as-in-execution', lambda v: c.ex.rv(lv, v.st) == old + 1, 'count')
        c.ensures('no-thread-left-joinable', lambda v: v.g('openThreads') == c.g('openThreads'), 'SAFE')
    C.add(Contract(DTE + '::executeAction', handover, keep_lvalues=True))
    C.add(Contract(JQE + '::executeAction', handover, keep_lvalues=True))


# ---------------------------------------------------------------- the job queue
def jobqueue(C):
    def add(c):
        fn, = c.args
        ex = c.ex
        if c.mode == 'apply':
            st = c.new
            f = fn if isinstance(fn, Closure) else ex.closure_of(fn) if z3.is_expr(fn) else None
            one_obl(ex, st, 'job-given-to-the-own-queue', c.this == ex.sub(JQE, 'm_jobQueue', z3.Const('this', I)), 'once', c.node)
            given_job(ex, st, f, c.node)
            return
        c.req('job-callable', fn != 0, 'wf')
        c.req('no-job-yet', z3.And(c.g('pushes') == 0, z3.Not(c.g('spawnFailed')), z3.Not(c.g('token'))), 'wf')
        for f in ('m_jobQueue', 'm_isJobQueueRunning', 'm_workerThread'):
            c.modifies(JQ, f, lambda r: r == c.this, 'any')
        c.ensures('added-exactly-once', lambda v: z3.And(v.g('pushes') == 1, v.g('pushed') == fn), 'fifo')
        c.ensures('a-worker-takes-care-of-the-queue', lambda v: v.g('launchOK'), 'fifo')
    C.add(Contract(JQ + '::addJob', add))

    def run(c):
        c.req('started-as-the-worker', z3.And(c.g('token'), c.g('pops') == 0, c.g('nActs') == 0, z3.Not(c.g('stopSeen')), z3.Not(c.g('stopFresh'))), 'wf')
        for f in ('m_jobQueue', 'm_isJobQueueRunning'):
            c.modifies(JQ, f, lambda r: r == c.this, 'any')
        for g in ('acts', 'nActs'):
            c.gmodifies(g, None, 'any')
        c.ensures('every-job-taken-was-run', lambda v: v.g('nActs') == v.g('pops'), 'fifo')
        c.ensures('worker-reports-its-end', lambda v: z3.Not(v.g('token')), 'fifo')
    C.add(Contract(JQ + '::run', run))

    def run_inv(ex, base, s):
        q = z3.Const('this', I)
        g = lambda n: gget(ex, s, n)
        return [f for _, f in queue_inv(ex, s, q)] + [g('token'), g('pops') == g('nActs'), gget(ex, s, 'workers', q) == 1, jf(ex, s, 'm_isJobQueueRunning', q)]
    C.loop_invs[JQ + '::run'] = run_inv

    def activate(c):
        c.req('no-failure-yet', z3.And(z3.Not(c.g('spawnFailed')), z3.Not(c.g('token'))), 'wf')
        was = c.f(JQ, 'm_isJobQueueActive', c.this)
        for f in ('m_jobQueue', 'm_isJobQueueRunning', 'm_workerThread'):
            c.modifies(JQ, f, lambda r: r == c.this, 'any')
        c.set(JQ, 'm_isJobQueueActive', c.this, T, 'stop')
        c.ensures('pending-jobs-are-taken-up-again', lambda v: z3.Or(was, v.g('launchOK')), 'stop')
    C.add(Contract(JQ + '::activate', activate))

    def deactivate(c):
        c.req('not-the-worker', z3.And(z3.Not(c.g('token')), z3.Not(c.g('joined')), z3.Not(c.g('sealed'))), 'wf')
        was = c.f(JQ, 'm_isJobQueueActive', c.this)
        th = c.f(JQ, 'm_workerThread', c.this)
        for f in ('m_jobQueue', 'm_isJobQueueRunning', 'm_workerThread'):
            c.modifies(JQ, f, lambda r: r == c.this, 'any')
        c.set(JQ, 'm_isJobQueueActive', c.this, F, 'stop')
        c.ensures('no-worker-left', lambda v: z3.Or(z3.Not(was), z3.Not(th.get('joinable')), v.g('joined')), 'stop')
    C.add(Contract(JQ + '::deactivate', deactivate))

    def new_queue(c):
        new_object(c, JQ, c.this)
        for g in ('nAdded', 'nRan', 'workers'):
            c.req('no-%s-yet' % g, c.gs(g, c.this) == 0, 'any')
        names = [nm for nm, _ in queue_inv(c.ex, c.st, c.this)]
        for i, nm in enumerate(names):
            c.ensures('queue.' + nm, lambda v, i=i: queue_inv(c.ex, v.st, c.this)[i][1], 'fifo')
        c.ensures('active', lambda v: v.f(JQ, 'm_isJobQueueActive', c.this), 'stop')
        c.ensures('no-worker-thread', lambda v: z3.Not(v.f(JQ, 'm_workerThread', c.this).get('joinable')), 'stop')
    C.add(Contract(JQ + '::JobQueue', new_queue, ctor=True))
    C.add(Contract(JQ + '::isActive', lambda c: c.ret(c.f(JQ, 'm_isJobQueueActive', c.this), BOOL, 'stop')))


# ---------------------------------------------------------------- the event loop
def loop_inv(c, el):
    run = c.f(EL, 'm_eventLoopThreadRunning', el)
    th = c.f(EL, 'm_eventLoopThread', el)
    al = c.gs('loopAlive', el)
    return [('a-running-loop-can-be-stopped', z3.Implies(run, z3.And(c.f(EL, 'm_barrier', el) != 0, th.get('joinable')))),
            ('loop-alive-exactly-while-running', z3.And(0 <= al, al <= 1, z3.Implies(z3.Not(run), al == 0)))]


def quiescent(v, c, tm):
    mp = v.f(MBT, 'm_items', tm)
    vw = Vw(v, c)
    return all_keys(mp, lambda k: z3.Not(z3.And(enabled(vw, val(mp, k)), conditions_ok(vw, val(mp, k)), z3.Not(v.f(TR, 'm_requireNoActionsInExecution', val(mp, k))))))


SWEEP_GHOSTS = ('denter', 'dexit', 'fnE', 'fnX', 'exE', 'exX', 'tokE', 'tokX', 'exitsSeen', 'nEnter', 'trace', 'traceFired', 'nTrace', 'firings')


def start_loop(c, el, e):
    """EventLoop::start on the engine e."""
    pm, tm = sub_refs(c, e)
    run = c.f(EL, 'm_eventLoopThreadRunning', el)
    single = c.f(EI, 'm_actionsThreadOption', e) == opt_enum(c)['SINGLE_THREAD']
    for nm, fo in eng_inv(c, e) + loop_inv(c, el):
        c.req(nm, fo, 'wf')
    c.throws('PTN_Exception', run, 'lifecycle')
    mods = [(P, 'm_numberOfTokens'), (P, 'm_onEnterActionsInExecution'), (P, 'm_onExitActionsInExecution')]
    for cls, f in mods:
        c.modifies(cls, f, lambda r: single, 'sweep')
    c.modifies(EI, 'm_newInputReceived', lambda r: z3.And(r == e, single), 'sweep')
    for g in SWEEP_GHOSTS:
        c.gmodifies(g, lambda r: single, 'any')
    c.throw_modifies(*mods, (EI, 'm_newInputReceived'), *[('ghost', g) for g in SWEEP_GHOSTS])
    c.may_throw('OverflowException', single, 'any')
    c.may_throw('PTN_Exception', single, 'any')
    c.may_throw('user_exception', single, 'any')
    for f in ('m_barrier', 'm_eventLoopThreadRunning', 'm_eventLoopThread'):
        c.modifies(EL, f, lambda r: z3.And(r == el, z3.Not(single)), 'lifecycle')
    for g in ('alive', 'dyntype', 'allocated'):
        c.gmodifies(g, lambda r: z3.Not(c.gs('allocated', r)), 'any')
    c.gmodifies('loopAlive', lambda r: r == el, 'any')
    c.ensures('single-thread-runs-until-nothing-can-fire', lambda v: z3.Implies(single, quiescent(v, c, tm)), 'sweep')
    c.ensures('otherwise-the-loop-runs', lambda v: v.f(EL, 'm_eventLoopThreadRunning', el) == z3.Not(single), 'lifecycle')
    c.ensures('exactly-one-loop', lambda v: z3.Or(single, v.gs('loopAlive', el) == 1), 'lifecycle')
    for i, (nm, _) in enumerate(loop_inv(c, el)):
        c.ensures(nm, lambda v, i=i: loop_inv(Vw(v, c), el)[i][1], 'lifecycle')


def stop_loop(c, el):
    for nm, fo in loop_inv(c, el):
        c.req(nm, fo, 'wf')
    c.set(EL, 'm_eventLoopThreadRunning', el, F, 'lifecycle')
    c.modifies(EL, 'm_eventLoopThread', lambda r: r == el, 'any')
    c.gmodifies('loopAlive', lambda r: r == el, 'any')
    c.ensures('no-sweep-in-progress-or-to-come', lambda v: v.gs('loopAlive', el) == 0, 'lifecycle')
    for i, (nm, _) in enumerate(loop_inv(c, el)):
        c.ensures(nm, lambda v, i=i: loop_inv(Vw(v, c), el)[i][1], 'lifecycle')


def eventloop(C):
    C.globals.append(lambda ex, v: [v.f(EL, 'm_ptnEngine', z3.Const('this', I)) > 0] if ex.unit.startswith(EL + '::') else [])

    def start(c):
        e = c.f(EL, 'm_ptnEngine', c.this)
        c.req('the-loop-of-this-engine', c.this == c.ex.sub(EI, 'm_eventLoop', e), 'wf')
        start_loop(c, c.this, e)
    C.add(Contract(EL + '::start', start))

    def start_inv(ex, base, s):
        el = z3.Const('this', I)
        e = View(ex, base).f(EL, 'm_ptnEngine', el)
        pm, tm = sub_refs(View(ex, s), e)
        return [no_block(View(ex, s))]
    C.loop_invs[EL + '::start'] = start_inv
    C.add(Contract(EL + '::stop', lambda c: stop_loop(c, c.this)))

    def run(c):
        e = c.f(EL, 'm_ptnEngine', c.this)
        c.req('the-loop-of-this-engine', c.this == c.ex.sub(EI, 'm_eventLoop', e), 'wf')
        for nm, fo in eng_inv(c, e) + loop_inv(c, c.this):
            c.req(nm, fo, 'wf')
        c.req('started', z3.And(c.f(EL, 'm_eventLoopThreadRunning', c.this), c.gs('loopAlive', c.this) == 1, z3.Not(c.g('stopSeen'))), 'wf')
        for cls, f in ((P, 'm_numberOfTokens'), (P, 'm_onEnterActionsInExecution'), (P, 'm_onExitActionsInExecution'), (EI, 'm_newInputReceived')):
            c.modifies(cls, f, None, 'any')
        for g in SWEEP_GHOSTS:
            c.gmodifies(g, None, 'any')
        c.throw_modifies((P, 'm_numberOfTokens'), (P, 'm_onEnterActionsInExecution'), (P, 'm_onExitActionsInExecution'), (EI, 'm_newInputReceived'), *[('ghost', g) for g in SWEEP_GHOSTS])
        for x in ('OverflowException', 'PTN_Exception', 'user_exception'):
            c.may_throw(x, T, 'any')
        c.set(EL, 'm_eventLoopThreadRunning', c.this, F, 'lifecycle')
        c.ensures('ended-only-on-a-stop-request', lambda v: v.g('stopSeen'), 'lifecycle')
        c.ensures('met-the-stopper', lambda v: v.gs('loopAlive', c.this) == 0, 'lifecycle')
    C.add(Contract(EL + '::run', run))

    def swept(ex, st, fired):
        gput(ex, st, 'sweeps', gget(ex, st, 'sweeps') + 1)
        gput(ex, st, 'idle', z3.Not(ex.truth(fired, st, None)))
        gput(ex, st, 'stopFresh', F)
    for o in (IEL, EI):
        C.after_call[(EL + '::run', o + '::executeInt')] = [swept]
        C.call_sites[(EL + '::run', o + '::executeInt')] = lambda ex, pre, this, args: [('no-stop-request-when-the-next-sweep-begins', pre.g('stopFresh'), 'sweeps')]
    C.entries.append(lambda ex, v, this, unit: [z3.Not(v.g('idle')), v.g('stopFresh')] if unit == EL + '::run' else [])
    C.loop_invs[EL + '::run'] = lambda ex, base, s: [no_block(View(ex, s))]

    dur = lambda c: c.arrs(EL, 'm_sleepDuration')[0]
    C.add(Contract(EL + '::setSleepDuration', lambda c: c.set(EL, 'm_sleepDuration', c.this, c.args[0], 'lifecycle')))
    C.add(Contract(EL + '::getSleepDuration', lambda c: c.ret(c.f(EL, 'm_sleepDuration', c.this), dur(c), 'lifecycle')))

    def ctor(c):
        new_object(c, EL, c.this)
        c.ensures('bound-to-the-engine', lambda v: v.f(EL, 'm_ptnEngine', c.this) == c.args[0], 'lifecycle')
        c.ensures('not-running', lambda v: z3.Not(v.f(EL, 'm_eventLoopThreadRunning', c.this)), 'lifecycle')
        c.ensures('no-loop-thread-yet', lambda v: z3.Not(v.f(EL, 'm_eventLoopThread', c.this).get('joinable')), 'lifecycle')
    C.add(Contract(EL + '::EventLoop', ctor, ctor=True))

    # the engine as the loop sees it: the same contracts
    for f in ('executeInt', 'getActionsThreadOption', 'getNewInputReceived'):
        impl = C.table[EI + '::' + f][0]
        C.add(Contract(IEL + '::' + f, impl.spec, trusted=True))


# ---------------------------------------------------------------- construction and destruction
def new_object(c, cls, r):
    """A constructor sets up the object and its sub-objects, and touches nothing else."""
    ex = c.ex
    for b in ex.prog.records.get(cls, {}).get('bases', []):
        bq = ex.types.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
        if bq and bq.startswith('ptne::'):
            new_object(c, bq, r)
    for f in ex.prog.fields.get(cls, []):
        sh = ex.types.of(f)
        if isinstance(sh, SEnt):
            new_object(c, sh.cls, ex.sub(cls, f['name'], r))
        elif not isinstance(sh, SOpaque):
            c.modifies(cls, f['name'], lambda x: x == r, 'any')


def construct_engine(c, e, opt, ref=None):
    """Constructing the engine e: an empty net that does not run, with the executor of the option."""
    kinds = opt_enum(c)
    c.throws('PTN_Exception', z3.And(*[opt != k for k in kinds.values()]), 'exec')
    for g in ('alive', 'dyntype', 'allocated'):
        c.gmodifies(g, lambda r: z3.Not(c.gs('allocated', r)), 'any')
    # the ghost counts the sweeps in progress or to come: none for a loop that does not exist yet
    if ref is None:
        ref = lambda v: e
        c.req('no-loop-yet', c.gs('loopAlive', c.ex.sub(EI, 'm_eventLoop', e)) == 0, 'any')
    c.req('no-place-blocked', no_block(c), 'any')
    for nm, f, asp in engine_state(c, ref):
        c.ensures(nm, f, asp)
    c.ensures('option-as-given', lambda v: v.f(EI, 'm_actionsThreadOption', ref(v)) == opt, 'exec')


def engine_state(c, ref):
    """What holds of a new engine; ref gives it in the post state."""
    empty = lambda mp: all_keys(mp, lambda k: F)
    pm = lambda v: sub_refs(c, ref(v))[0]
    tm = lambda v: sub_refs(c, ref(v))[1]
    el = lambda v: c.ex.sub(EI, 'm_eventLoop', ref(v))
    out = [('no-places', lambda v: empty(v.f(MBP, 'm_items', pm(v))), 'build'), ('no-transitions', lambda v: empty(v.f(MBT, 'm_items', tm(v))), 'build'),
           ('no-input-places', lambda v: v.f(PM, 'm_inputPlaces', pm(v)).n == 0, 'build'),
           ('no-new-input', lambda v: z3.Not(v.f(EI, 'm_newInputReceived', ref(v))), 'inputs'),
           ('not-running', lambda v: z3.Not(v.f(EL, 'm_eventLoopThreadRunning', el(v))), 'lifecycle')]
    z = z3.IntVal(0)
    for i, (nm, _) in enumerate(eng_inv(c, z)):
        if nm != 'no-place-blocked':
            out.append((nm, lambda v, i=i: eng_inv(Vw(v, c), ref(v))[i][1], 'netinv'))
    for i, (nm, _) in enumerate(loop_inv(c, z)):
        out.append((nm, lambda v, i=i: loop_inv(Vw(v, c), el(v))[i][1], 'lifecycle'))
    return out


def lifetimes(C):
    def imp(c):
        new_object(c, EI, c.this)
        construct_engine(c, c.this, c.args[0])
    C.add(Contract(EI + '::PTN_EngineImp', imp, ctor=True))

    def proxy(c):
        new_object(c, PROXY, c.this)
        construct_engine(c, c.ex.sub(PROXY, 'm_ptnEngineImp', c.this), c.args[0])
    C.add(Contract(PROXY + '::PTN_EngineImpProxy', proxy, ctor=True))

    def api(c):
        c.modifies(API, 'm_impProxy', lambda x: x == c.this, 'any')
        p = lambda v: v.f(API, 'm_impProxy', c.this)
        c.ensures('owns-a-new-engine', lambda v: z3.And(p(v) > 0, v.gs('alive', p(v)), v.gs('allocated', p(v)), z3.Not(c.gs('allocated', p(v)))), 'build')
        construct_engine(c, None, c.args[0], lambda v: c.ex.sub(PROXY, 'm_ptnEngineImp', p(v)))
    C.add(Contract(API + '::PTN_Engine', api, ctor=True))
    C.add(Contract(EI + '::~PTN_EngineImp', lambda c: stop_loop(c, c.ex.sub(EI, 'm_eventLoop', c.this))))


# ---------------------------------------------------------------- the rest of the engine
def engine2(C):
    sub = lambda c: c.ex.sub(EI, 'm_eventLoop', c.this)

    def execute(c):
        start_loop(c, sub(c), c.this)
    C.add(Contract(EI + '::execute', execute))
    C.add(Contract(EI + '::stop', lambda c: stop_loop(c, sub(c))))
    C.add(Contract(EI + '::setEventLoopSleepDuration', lambda c: c.set(EL, 'm_sleepDuration', sub(c), c.args[0], 'lifecycle')))
    C.add(Contract(EI + '::getEventLoopSleepDuration', lambda c: c.ret(c.f(EL, 'm_sleepDuration', sub(c)), c.arrs(EL, 'm_sleepDuration')[0], 'lifecycle')))


# ---------------------------------------------------------------- the public face
MUTATORS = ('addArc', 'clearNet', 'createTransition', 'createPlace', 'execute', 'incrementInputPlace', 'registerAction', 'registerCondition', 'removeArc',
            'setActionsThreadOption', 'setEventLoopSleepDuration', 'stop')
READERS = ('getActionsThreadOption', 'getEventLoopSleepDuration', 'getNumberOfTokens', 'getPlacesProperties', 'getTransitionsProperties', 'isEventLoopRunning', 'printState')


def facade(C):
    for f in MUTATORS + READERS:
        impl = next(x for x in C.table[EI + '::' + f] if x.match is None or not six_params(x))

        def proxy(c, impl=impl):
            c.this = c.ex.sub(PROXY, 'm_ptnEngineImp', c.this)
            impl.spec(c)

        def api(c, impl=impl):
            p = c.f(API, 'm_impProxy', c.this)
            c.req('engine-exists', z3.And(p > 0, c.gs('alive', p), c.gs('allocated', p)), 'wf')
            c.this = c.ex.sub(PROXY, 'm_ptnEngineImp', p)
            impl.spec(c)
        C.add(Contract(PROXY + '::' + f, proxy))
        C.add(Contract(API + '::' + f, api))
        C.call_sites[(PROXY + '::' + f, EI + '::' + f)] = lambda ex, pre, this, args, f=f: [
            ('engine-called-under-the-%s-lock' % ('exclusive' if f in MUTATORS else 'shared'),
             z3.BoolVal(any(h[0] == PROXY + '::m_mutex' and (h[2] == 'ex' or f in READERS) for h in ex.calling.held)), 'LOCK')]


def six_params(con):
    return con is con.__class__ and False or con.spec.__name__ == 'create6'
