"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
R = 'PTN_Engine/'
def P(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[R + f for f in files], state=[dict(name=x, where=R + files[0]) for x in state], mechanism=[dict(name=n, where=R + w) for n, w in mech], observe_at=observe, hook_needed=hook))

L = [
P('C01', 'A transition fires exactly when the Petri net firing rule allows it',
  "An attempt to fire a transition fires it if and only if, at that moment, every place on an activation arc holds at least the arc's weight in tokens, every place on an inhibitor arc is empty, all its additional conditions evaluate to true, and, for a transition that requires no actions in execution, no activation place has an on-enter action executing. An attempt that does not fire changes no token count and starts no action. The attempt reports true exactly when the transition fired.",
  ['inputs', 'histories'], 'Every transition with any number of activation, inhibitor and destination arcs of any positive weight, any marking, any outcome of its conditions.',
  'The guard is a conjunction over unboundedly many arcs, weights and conditions; a test samples a handful of small nets, so a comparison off by one, an arc skipped in a loop or a condition ignored in one corner survives.',
  ['Transition.cpp', 'Transition.h', 'Place.cpp'], ['Transition::m_activationArcs', 'Transition::m_inhibitorArcs', 'Transition::m_additionalActivationConditions', 'Transition::m_requireNoActionsInExecution', 'Place::m_numberOfTokens'],
  [('Transition::execute', 'Transition.cpp'), ('Transition::isActive / isEnabled / checkInhibitorPlaces / checkActivationPlaces / checkAdditionalConditions / noActionsInExecution', 'Transition.cpp')],
  ['PTN_Engine::getNumberOfTokens', 'return value of Transition::execute']),
P('C02', 'Firing moves exactly the tokens the arc weights say and touches nothing else',
  'When a transition fires, every place ends with its tokens before, minus the weight of its activation arc (if any), plus the weight of its destination arc (if any), also when it has both. Every other place, inhibitor places included, keeps its tokens. Nothing else about the net (arcs, names, bound actions, conditions, executors) changes.',
  ['inputs', 'histories'], 'Every net, every marking under which a transition fires, all arc weights up to the largest size_t.',
  'The exact effect is a statement about every place of an arbitrary net, including the ones a test does not look at, for all weights and overlapping arc sets.',
  ['Transition.cpp', 'Place.cpp'], ['Place::m_numberOfTokens', 'Transition::m_activationArcs', 'Transition::m_destinationArcs'],
  [('Transition::execute, exitActivationPlaces, enterDestinationPlaces', 'Transition.cpp'), ('Place::enterPlace, Place::exitPlace', 'Place.cpp')],
  ['PTN_Engine::getNumberOfTokens of every place', 'getPlacesProperties']),
P('C03', 'A firing attempt is all or nothing, also when it throws',
  'If an attempt to fire a transition ends with an exception (a destination place would overflow, a condition is unset or throws), then no token count has changed, no on-enter or on-exit action was started, and no place is left with its on-enter actions blocked. If it ends normally, either the complete effect of the firing took place or none of it, and no place is left blocked.',
  ['inputs', 'fault_sequences'], 'Every net and marking, every position at which a condition or an overflow check fails.',
  'The failure has to be placed at every arc position, with every overlap of activation and destination places; tests throw at one or two.',
  ['Transition.cpp', 'Place.cpp'], ['Place::m_numberOfTokens', 'Place::m_blockStartingOnEnterActions'],
  [('Transition::execute', 'Transition.cpp'), ('Transition::checkDestinationPlacesOverflow, blockStartingOnEnterActions', 'Transition.cpp')],
  ['PTN_Engine::getNumberOfTokens after a failed execute', 'actions called']),
P('C04', 'Token counts never wrap around; misuse is reported by the right exception',
  'Adding n tokens to a place with t tokens leaves t+n, or throws OverflowException and leaves t when the sum does not fit in size_t; adding none throws NullTokensException. Removing n>0 tokens leaves t-n, or throws NotEnoughTokensException and leaves t when n>t (removing 0 means: remove all). Incrementing an input place adds exactly one token or throws OverflowException, and no firing of a transition makes a count wrap around.',
  ['inputs'], 'All token counts and amounts of type size_t.',
  'Boundary arithmetic near the largest size_t: the pairs of operands cannot be enumerated.',
  ['Place.cpp', 'Transition.cpp'], ['Place::m_numberOfTokens'],
  [('Place::enterPlace, increaseNumberOfTokens', 'Place.cpp'), ('Place::exitPlace, decreaseNumberOfTokens', 'Place.cpp'), ('Transition::checkDestinationPlacesOverflow', 'Transition.cpp')],
  ['exception type', 'Place::getNumberOfTokens']),
P('C05', 'Each token entry or exit hands over its place action exactly once, exits first',
  'When a transition fires, the on-exit action of each activation place and the on-enter action of each destination place that has one is handed to the executor exactly once (whatever the weight), after the tokens of its own place were updated, and all exit actions before any enter action. Adding a token to an input place hands over its on-enter action exactly once. Places without an action and attempts that do not fire hand over nothing, and the action is always the one bound to that place and direction.',
  ['inputs', 'histories'], 'Every net, every marking, any set of places with or without actions and any executor.',
  'A doubled, dropped, swapped or misplaced action appears only for particular combinations of arcs and bound actions.',
  ['Transition.cpp', 'Place.cpp', 'Executor/SingleThreadExecutor.cpp', 'Executor/DetachedExecutor.cpp', 'Executor/JobQueueExecutor.cpp'],
  ['Place::m_onEnterAction', 'Place::m_onExitAction', 'Place::m_actionsExecutor'],
  [('Place::enterPlace / exitPlace / executeAction', 'Place.cpp'), ('Transition::exitActivationPlaces, enterDestinationPlaces', 'Transition.cpp')],
  ['calls of the user actions']),
P('C06', 'Input places take tokens from outside, and from nowhere else',
  'Incrementing an input place throws InvalidNameException for an unknown name and NotInputPlaceException for any other place, changing nothing; otherwise it adds one token to that place and to no other. It then records the new input and wakes the event loop, in this order, and the sleep of the loop ends when new input is recorded, and a sweep clears the record only before it looks at the transitions, so that none is missed. Clearing the input places empties exactly those.',
  ['inputs', 'histories', 'schedules'], 'Every net, every name, every marking; every point at which the loop may fall asleep.',
  'The effect is over all places of the net; a lost wake-up needs one particular interleaving.',
  ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'EventLoop.cpp'], ['PlacesManager::m_inputPlaces', 'PTN_EngineImp::m_newInputReceived', 'EventLoop::m_eventNotifier'],
  [('PTN_EngineImp::incrementInputPlace', 'PTN_EngineImp.cpp'), ('PlacesManager::incrementInputPlace, clearInputPlaces', 'PlacesManager.cpp'), ('EventLoop::notifyNewEvent, run', 'EventLoop.cpp')],
  ['PTN_Engine::getNumberOfTokens', 'exception types']),
P('C07', 'A created place is exactly as specified; an invalid one changes nothing',
  'Creating a place adds exactly one place under the given name, with the given initial tokens, input flag and actions, and leaves every other place, transition and registered function as it was. An empty name, a name already in use, an action name that is not registered, or an action name with an unset function is rejected with an exception and the net stays exactly as it was. The place takes tokens from outside exactly when it was created as an input place.',
  ['inputs', 'histories'], 'All place properties, after any history of creations.',
  'Rejection leaving the net unchanged, and independence from all existing places, are statements over arbitrary nets.',
  ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'ManagerBase.h', 'Place.cpp'], ['ManagerBase::m_items', 'PlacesManager::m_inputPlaces'],
  [('PTN_EngineImp::createPlace', 'PTN_EngineImp.cpp'), ('PlacesManager::insert', 'PlacesManager.cpp'), ('ManagerBase::insert', 'ManagerBase.h'), ('Place::Place', 'Place.cpp')],
  ['getPlacesProperties', 'exceptions']),
P('C08', 'A created transition is exactly as specified; an invalid one changes nothing',
  'Creating a transition adds exactly one transition under the given name with exactly the given activation, destination and inhibitor arcs (places, weights, order), conditions and no-actions-in-execution flag, and leaves everything else as it was. A name that is empty or in use, an arc to an unknown place, a place twice among the arcs of one kind (ActivationPlaceRepetitionException, DestinationPlaceRepetitionException or InhibitorPlaceRepetitionException) or a zero weight (ZeroValueWeightException) is rejected with an exception, and the net stays exactly as it was.',
  ['inputs', 'histories'], 'All transition properties: arc lists of any length and order with any repetition, any weights.',
  'Duplicates and zero weights can sit at any positions of lists of any length.',
  ['PTN_EngineImp.cpp', 'TransitionsManager.cpp', 'ManagerBase.h', 'Transition.cpp', 'Utilities/DetectRepeated.h'], ['ManagerBase::m_items', 'Transition::m_activationArcs', 'Transition::m_destinationArcs', 'Transition::m_inhibitorArcs'],
  [('PTN_EngineImp::createTransition (both overloads)', 'PTN_EngineImp.cpp'), ('Transition::Transition', 'Transition.cpp')],
  ['getTransitionsProperties', 'exceptions']),
P('C09', 'addArc and removeArc change exactly the named arc or are rejected, no effect',
  'addArc adds exactly one arc of the given kind, place and weight to the named transition (bidirectional: one activation and one destination arc), and is rejected with an exception and no effect when the place or transition is unknown, the weight is zero, or the transition already has an arc of that kind (either kind, for bidirectional) to that place. removeArc removes exactly the arc of that kind to that place (bidirectional: both), keeping the others in order, and is rejected with no effect when it does not exist (bidirectional: either is missing). Other transitions and all places stay as they were.',
  ['inputs', 'histories'], 'Every transition, every arc list, every kind of arc.',
  'All-or-nothing over two arc lists with arbitrary contents and positions.',
  ['Transition.cpp', 'PTN_EngineImp.cpp'], ['Transition::m_activationArcs', 'Transition::m_destinationArcs', 'Transition::m_inhibitorArcs'],
  [('Transition::addArc, removeArc', 'Transition.cpp'), ('PTN_EngineImp::addArc, removeArc', 'PTN_EngineImp.cpp')],
  ['getTransitionsProperties', 'exceptions']),
P('C10', 'The net cannot be restructured while its event loop runs',
  'While the event loop runs, addArc, removeArc, clearNet and setActionsThreadOption throw and leave the net exactly as it was. When it does not run, clearNet removes every transition and every place, input places included, and keeps the registered actions and conditions.',
  ['inputs', 'histories'], 'Every net and every call while the loop is running or not.',
  'Every structural operation has to be tried in every state of the net; that a rejected one has no effect at all is a frame condition.',
  ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'ManagerBase.h', 'TransitionsManager.h'], ['EventLoop::m_eventLoopThreadRunning', 'ManagerBase::m_items', 'PlacesManager::m_inputPlaces'],
  [('PTN_EngineImp::clearNet', 'PTN_EngineImp.cpp'), ('PlacesManager::clear', 'PlacesManager.cpp'), ('ManagerBase::clear', 'ManagerBase.h')],
  ['exceptions', 'getPlacesProperties', 'getTransitionsProperties']),
P('C11', 'Reports describe the net exactly as it is',
  'The places report lists every place exactly once with its name, current token count, input flag, action names and actions; the transitions report lists every transition exactly once with its name, arcs of each kind (place names, weights, kind, order), conditions with their names, and no-actions-in-execution flag. The token count of a named place, the actions thread option and the sleep duration are returned as they are; an unknown place name throws InvalidNameException. Reporting and printing change nothing.',
  ['inputs', 'histories'], 'Every net reachable through the interface, of any size.',
  'Completeness and exactness over nets of any size, and that reporting has no side effect.',
  ['Place.cpp', 'Transition.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'PTN_EngineImp.cpp'], ['ManagerBase::m_items'],
  [('Place::placeProperties', 'Place.cpp'), ('Transition::getTransitionProperties', 'Transition.cpp'), ('getPlacesProperties', 'PlacesManager.cpp'), ('getTransitionsProperties', 'TransitionsManager.cpp')],
  ['getPlacesProperties', 'getTransitionsProperties', 'getNumberOfTokens']),
P('C12', 'The registries of actions and conditions keep each name bound to its function',
  'Registering an action or condition binds its name to the given function; an empty name throws InvalidFunctionNameException and a name already registered of that sort throws RepeatedFunctionException, and then nothing changes. A registered name always yields the function it was registered with, a list of names the functions in the order of the list, and an unknown name throws InvalidFunctionNameException. Actions and conditions do not mix.',
  ['inputs', 'histories'], 'All names, functions and histories of registrations.',
  'A map contract over arbitrary histories.',
  ['ManagedContainer.h', 'PTN_EngineImp.cpp'], ['ManagedContainer::m_items'],
  [('ManagedContainer::addItem, getItem, getItems', 'ManagedContainer.h'), ('PTN_EngineImp::registerAction, registerCondition', 'PTN_EngineImp.cpp')],
  ['exceptions', 'which function a place or transition calls']),
P('C13', 'Functions named in properties are bound to the registered ones, in order',
  'A place created with an action name has as its on-enter (on-exit) action the function registered under that name and reports that name; without a name it has the function given with it. A transition created with condition names has exactly the conditions registered under those names, in order; without names it has the given condition functions, in order. A name that is not registered throws InvalidFunctionNameException and nothing is created.',
  ['inputs', 'histories'], 'All properties and all contents of the registries.',
  'Enter and exit, first and later names, named and anonymous functions can be confused only in combinations.',
  ['PTN_EngineImp.cpp', 'ManagedContainer.h', 'Place.cpp', 'Transition.cpp'], ['Place::m_onEnterAction', 'Place::m_onExitAction', 'Transition::m_additionalActivationConditions'],
  [('PTN_EngineImp::createPlace', 'PTN_EngineImp.cpp'), ('PTN_EngineImp::createTransition, createAnonymousConditions', 'PTN_EngineImp.cpp'), ('ManagedContainer::getItem, getItems', 'ManagedContainer.h')],
  ['which functions are called', 'getPlacesProperties', 'getTransitionsProperties']),
P('C14', 'A sweep attempts every enabled transition once; single-thread runs to completion',
  'One sweep of the net attempts every transition that was enabled at its start exactly once and no other, in any order, and reports true exactly when at least one of them fired. When it reports false, no token moved and no transition can fire (other than one waiting for actions in execution). With the single-thread option, execute() sweeps until a sweep fires nothing.',
  ['inputs', 'histories', 'schedules'], 'Every net and marking, every order the random shuffle may choose.',
  'The order is random, and completeness is over every transition of the net.',
  ['PTN_EngineImp.cpp', 'TransitionsManager.cpp', 'EventLoop.cpp'], ['TransitionsManager::m_items'],
  [('PTN_EngineImp::executeInt', 'PTN_EngineImp.cpp'), ('TransitionsManager::collectEnabledTransitionsRandomly', 'TransitionsManager.cpp'), ('EventLoop::start', 'EventLoop.cpp')],
  ['getNumberOfTokens after execute()']),
P('C15', 'The job queue runs every job exactly once, in order, one at a time',
  'Every job added to a job queue is run exactly once, in the order the jobs were added, by at most one worker at a time and outside the lock of the queue. No job is dropped, repeated or overtaken while the queue is active. A job added while the queue is active and has no worker gets one.',
  ['schedules', 'histories'], 'Every sequence and interleaving of addJob with the worker.',
  'The failing interleavings (worker about to end while a job arrives) are a few instructions wide.',
  ['JobQueue/JobQueue.cpp', 'JobQueue/JobQueue.h'], ['JobQueue::m_jobQueue', 'JobQueue::m_isJobQueueRunning', 'JobQueue::m_workerThread'],
  [('JobQueue::addJob, launch, run', 'JobQueue/JobQueue.cpp')], ['order and number of job executions']),
P('C16', 'Stopping a job queue stops its worker and keeps the pending jobs',
  'Deactivating a job queue makes it inactive before it waits for its worker, returns with no worker running, and keeps the jobs that were not started, in order. Jobs added while it is inactive are kept and not run, and activating it takes them up again with one worker. A new queue is active. Whether it is active is what the last such call set, and repeated calls are harmless.',
  ['schedules', 'histories'], 'Every interleaving of activate, deactivate, addJob and the worker.',
  'Stop and start race with a worker that ends on its own and with jobs arriving.',
  ['JobQueue/JobQueue.cpp'], ['JobQueue::m_isJobQueueActive', 'JobQueue::m_workerThread', 'JobQueue::m_jobQueue'],
  [('JobQueue::activate, deactivate', 'JobQueue/JobQueue.cpp')], ['isActive', 'jobs run after activate']),
P('C17', 'Each executor runs an action once, counted while it runs, on the right thread',
  'Executing an action runs it exactly once, and its counter is one higher from before it can start until after it has returned. The single-thread and event-loop options run it in the calling thread before returning, the detached option in a thread of its own, the job-queue option through a job queue in the order handed over. Any other option value is rejected with an exception.',
  ['inputs', 'schedules'], 'Every action and counter, every interleaving of the threads involved.',
  'The counter has to cover the gap between handing over and starting, which only an unlucky schedule shows.',
  ['Executor/SingleThreadExecutor.cpp', 'Executor/DetachedExecutor.cpp', 'Executor/JobQueueExecutor.cpp', 'Executor/ActionsExecutorFactory.cpp'], ['Place::m_onEnterActionsInExecution', 'Place::m_onExitActionsInExecution'],
  [('SingleThreadExecutor::executeAction', 'Executor/SingleThreadExecutor.cpp'), ('DetachedExecutor::executeAction', 'Executor/DetachedExecutor.cpp'), ('JobQueueExecutor::executeAction', 'Executor/JobQueueExecutor.cpp'), ('ActionsExecutorFactory::createExecutor', 'Executor/ActionsExecutorFactory.cpp')],
  ['calls of the action and their thread', 'isOnEnterActionInExecution']),
P('C18', 'All places always use the executor of the selected actions thread option',
  "Every place of the net, whenever it was created, hands its actions to the engine's one executor, whose kind is the one the current option selects. Setting the option rebinds every existing place to a new executor of that kind; setting the option already in force keeps the executor, and an invalid option is rejected with no effect. While the event loop runs, setting it throws and changes nothing.",
  ['inputs', 'histories'], 'Every net and every history of creating places and changing the option.',
  'One place left on the old executor among many shows only in long histories.',
  ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'Place.cpp', 'Executor/ActionsExecutorFactory.cpp'], ['PTN_EngineImp::m_actionsExecutor', 'PTN_EngineImp::m_actionsThreadOption', 'Place::m_actionsExecutor'],
  [('PTN_EngineImp::setActionsThreadOption', 'PTN_EngineImp.cpp'), ('PlacesManager::setActionsExecutor', 'PlacesManager.cpp')], ['thread on which actions run', 'getActionsThreadOption']),
P('C19', 'Exporting a net to XML and importing it again gives the same net',
  'For every net that is not running and whose actions and conditions are named (names being C strings), exporting it to XML and importing the document into an empty engine with the same registered functions gives the same places (name, tokens, input flag, action names), the same transitions (name, flag, arcs with places, weights and order, condition names in order) and the same actions thread option. Exporting does not change the net, and a second export gives the same document. Exporting a running net is refused. An export to a file either writes it under the given path or throws.',
  ['inputs'], 'Every net of any size, all names and weights.',
  'Any field of any arc or place can be lost, swapped or reordered in only one combination.',
  ['ImportExport/XML/src/XML/XML_FileExporter.cpp', 'ImportExport/XML/src/XML/XML_FileImporter.cpp', 'ImportExport/IFileExporter.cpp', 'ImportExport/IFileImporter.cpp'], ['XML_FileExporter::m_document', 'XML_FileImporter::m_document'],
  [('IFileExporter::_export', 'ImportExport/IFileExporter.cpp'), ('XML_FileExporter', 'ImportExport/XML/src/XML/XML_FileExporter.cpp'), ('XML_FileImporter', 'ImportExport/XML/src/XML/XML_FileImporter.cpp'), ('IFileImporter::_import', 'ImportExport/IFileImporter.cpp')],
  ['getPlacesProperties / getTransitionsProperties of the importing engine']),
P('C20', 'Imported values are read strictly, and option names convert both ways',
  'The importer accepts as a token count or weight exactly the decimal numerals of values that fit in size_t, and yields that value; any other text is rejected with an exception (an empty token count counts as none given: no tokens). The conversions between actions thread options and their names are inverse to each other on the four options, and every other name or value is rejected with an exception.',
  ['inputs'], 'All strings.', 'The set of strings is infinite, and conversions silently accept prefixes, signs and wrap-around.',
  ['ImportExport/XML/src/XML/XML_FileImporter.cpp', 'ImportExport/ActionsThreadOptionConversions.cpp'], ['XML_FileImporter::m_document'],
  [('XML_FileImporter number conversion', 'ImportExport/XML/src/XML/XML_FileImporter.cpp'), ('ActionsThreadOptionConversions', 'ImportExport/ActionsThreadOptionConversions.cpp')],
  ['imported properties', 'exceptions']),
P('C21', 'Shared state is only touched under the lock that protects it',
  'Every access to the shared state of the engine (its containers, token counts, executors, actions, arcs, options, job queue and sleep duration) happens with the lock that protects it held, exclusively for writing. The public object calls the engine only under its own lock, shared for calls that only read and exclusive for all others. Hence calls from any number of threads never race on this state.',
  ['schedules'], 'Every execution path of every function of the engine, every interleaving.',
  'A missing lock shows only when two threads meet within nanoseconds; tests run mostly one thread.',
  ['Place.cpp', 'Transition.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'ManagerBase.h', 'ManagedContainer.h', 'JobQueue/JobQueue.cpp', 'EventLoop.cpp', 'PTN_EngineImp.cpp', 'PTN_EngineImpProxy.cpp'],
  ['every m_*Mutex / m_mutex and what it protects'], [('lock discipline (unique_lock, shared_lock, lock_guard at each access)', 'Place.cpp')], ['data races reported by a race detector']),
P('C22', 'The engine cannot deadlock on its own locks',
  'Locks are only acquired in one global order, and none is acquired again by the thread that holds it. No function waits for another thread (a join, barrier, condition, or blocked place) while holding a lock that thread needs. Hence no interleaving of calls, event loop, job queue workers and actions that do not call back into the engine leaves threads waiting for each other for ever.',
  ['schedules'], 'Every execution path and every interleaving.',
  'A deadlock needs two threads at two particular points.',
  ['Place.cpp', 'Transition.cpp', 'PlacesManager.cpp', 'JobQueue/JobQueue.cpp', 'EventLoop.cpp', 'PTN_EngineImp.cpp', 'PTN_EngineImpProxy.cpp'],
  ['all mutexes, condition variables, barriers and joins'], [('lock order and waits', 'Place.cpp'), ('JobQueue::deactivate', 'JobQueue/JobQueue.cpp'), ('EventLoop::stop', 'EventLoop.cpp')], ['calls return']),
P('C23', 'The event loop runs exactly between execute and stop',
  'With every option but single-thread, execute() starts exactly one event loop and it is reported as running; calling it while one runs throws and starts nothing. stop() returns only when the loop has ended its last sweep: it is then reported as not running, nothing fires any more, and it can be started again; stop() without a running loop does nothing. The loop ends only on a stop request, which it looks for before every further sweep, so that a net that never rests can be stopped; while it runs it keeps sweeping the transitions, and sleeps only after a sweep that fired nothing. With the single-thread option none is started. A new engine does not run, and destroying one stops it first.',
  ['schedules', 'histories'], 'Every history of execute and stop, every interleaving of the loop with them.',
  'The stop/start hand-shake is a protocol between two threads; tests see a few schedules.',
  ['EventLoop.cpp', 'PTN_EngineImp.cpp'], ['EventLoop::m_eventLoopThreadRunning', 'EventLoop::m_eventLoopThread', 'EventLoop::m_barrier'],
  [('EventLoop::start, run, stop', 'EventLoop.cpp'), ('PTN_EngineImp::execute, stop', 'PTN_EngineImp.cpp')], ['isEventLoopRunning', 'tokens after stop']),
P('C24', 'requireNoActionsInExecution sees no new on-enter action start during the firing',
  'A transition that requires no actions in execution blocks its activation places before it looks whether their on-enter actions execute, keeps them blocked until its tokens are taken, and unblocks them in every case. A token entering a blocked place starts its on-enter action only once the place is unblocked, exactly once, and does not hold the lock of the place while it waits. Hence no on-enter action starts in an activation place during such a firing.',
  ['schedules', 'inputs'], 'Every transition with the flag, every set of activation places, every interleaving with tokens entering them.',
  'The window between the check and the token removal is tiny.',
  ['Transition.cpp', 'Place.cpp'], ['Place::m_blockStartingOnEnterActions', 'Place::m_onEnterActionsInExecution'],
  [('Transition::execute, blockStartingOnEnterActions', 'Transition.cpp'), ('Place::enterPlace', 'Place.cpp')], ['on-enter actions running at the time of a firing']),
P('C25', 'Every public call reaches the engine with its arguments and result unchanged',
  'Each member function of the public engine object has exactly the effect, result and exceptions of the corresponding function of the engine behind it, called once with the same arguments in the same roles. None returns early, swallows an exception or calls a different function.',
  ['inputs'], 'All arguments, all states.', 'A wrong forward in a thin layer shows only where the functions differ.',
  ['PTN_Engine.cpp', 'PTN_EngineImpProxy.cpp'], ['PTN_Engine::m_impProxy', 'PTN_EngineImpProxy::m_ptnEngineImp'],
  [('PTN_Engine member functions', 'PTN_Engine.cpp'), ('PTN_EngineImpProxy member functions', 'PTN_EngineImpProxy.cpp')], ['public API']),
P('C26', 'The structure of the net stays consistent under every operation',
  'After every operation, successful or not, each place and transition is registered under its own non-empty name, and the list of input places holds exactly the input places of the net, each once. Every arc of every transition connects an existing place of the same net with a positive weight, and no transition has two arcs of one kind to the same place.',
  ['histories'], 'Every sequence of operations.',
  'An invariant over all reachable nets.',
  ['PTN_EngineImp.cpp', 'PlacesManager.cpp', 'TransitionsManager.cpp', 'ManagerBase.h', 'Transition.cpp'], ['ManagerBase::m_items', 'PlacesManager::m_inputPlaces', 'Transition arcs'],
  [('ManagerBase::insert, clear', 'ManagerBase.h'), ('PlacesManager::insert, clear', 'PlacesManager.cpp'), ('Transition::addArc, removeArc', 'Transition.cpp')], ['getPlacesProperties', 'getTransitionsProperties']),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in L:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(L))
