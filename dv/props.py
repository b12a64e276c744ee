"""Which obligations decide which property: functions (regular expressions on the qualified name without ptne::) and the aspects
of their obligations ('*': all but the lock discipline and lock order, which are C21 and C22)."""
A = ['*']
PUB = lambda names: [(r'PTN_Engine(ImpProxy)?::(%s)' % names, A), (r'PTN_EngineImp::(%s)' % names, A)]
FIRE = ['fire', 'SAFE', 'wf']

PROPS = {
    'C01': dict(units=[(r'utility::.*', A), (r'Transition::execute', ['fire', 'arith', 'tokens', 'block', 'disp', 'atomic', 'SAFE', 'wf']), (r'Transition::isEnabled', A), (r'Transition::Transition', ['build']),
                       (r'Place::(getNumberOfTokens|isOnEnterActionInExecution)', A), (r'Place::(enterPlace|exitPlace)', ['arith']), (r'PTN_EngineImp::createTransition', ['build', 'bind'])]),
    'C02': dict(units=[(r'utility::.*', A), (r'Transition::execute', ['tokens', 'frame', 'fire', 'arith', 'SAFE']), (r'Place::(enterPlace|exitPlace)', ['arith', 'disp']), (r'Transition::Transition', ['build']),
                       (r'PTN_EngineImp::createTransition', ['build']), (r'Transition::addArc|PTN_EngineImp::addArc', ['arcs'])]),
    'C03': dict(units=[(r'Transition::execute', ['atomic', 'arith', 'block', 'fire', 'disp', 'tokens', 'SAFE']), (r'Place::(enterPlace|exitPlace)', ['arith', 'disp', 'SAFE']),
                       (r'Place::blockStartingOnEnterActions', A)]),
    'C04': dict(units=[(r'Place::(enterPlace|exitPlace|setNumberOfTokens|getNumberOfTokens)', ['arith', 'SAFE', 'report']), (r'Transition::execute', ['arith', 'tokens', 'atomic']),
                       (r'PlacesManager::incrementInputPlace|PTN_Engine(Imp|ImpProxy)?::incrementInputPlace', ['arith']), (r'Place::Place', ['build'])]),
    'C05': dict(units=[(r'Place::(enterPlace|exitPlace)', ['disp', 'arith']), (r'Transition::execute', ['disp', 'fire', 'atomic']), (r'PlacesManager::incrementInputPlace|PTN_Engine(Imp|ImpProxy)?::incrementInputPlace', ['disp', 'inputs', 'arith']),
                       (r'PTN_EngineImp::executeInt', ['disp']), (r'(SingleThread|Detached|JobQueue)Executor::executeAction', A), (r'Place::Place', ['build', 'exec'])]),
    'C06': dict(units=PUB('incrementInputPlace') + [(r'PTN_EngineImp::(clearInputPlaces|setNewInputReceived|getNewInputReceived)', A), (r'PlacesManager::(incrementInputPlace|clearInputPlaces|insert|clear)', A), (r'PTN_EngineImp::(clearNet|createPlace)', ['netinv', 'clear', 'build']), (r'Place::Place', ['build']),
                       (r'Place::(isInputPlace|setNumberOfTokens)', A), (r'Place::enterPlace', ['arith', 'disp']), (r'EventLoop::notifyNewEvent', A), (r'EventLoop::run', ['inputs']), (r'PTN_EngineImp::executeInt', ['inputs'])]),
    'C07': dict(units=PUB('createPlace') + [(r'PlacesManager::(insert|contains|getPlace)', A), (r'Place::Place', A), (r'Place::(getName|isInputPlace)', A),
                       (r'ManagedContainer<std::function<void \(\)>>::getItem', A)]),
    'C08': dict(units=PUB('createTransition') + [(r'Transition::Transition', A), (r'utility::.*', A), (r'TransitionsManager::(insert|contains)', A), (r'PlacesManager::getPlaces?', A), (r'Transition::getName', A),
                       (r'ManagedContainer<std::function<bool \(\)>>::getItems', A)]),
    'C09': dict(units=PUB('addArc|removeArc') + [(r'Transition::(addArc|removeArc)', A), (r'TransitionsManager::(getTransition|contains)', A), (r'PlacesManager::(getPlace|contains)', A), (r'Place::getName', A)]),
    'C10': dict(units=PUB('clearNet|addArc|removeArc|setActionsThreadOption|isEventLoopRunning') + [(r'(PlacesManager|TransitionsManager)::clear', A), (r'EventLoop::isRunning', A), (r'EventLoop::(start|stop|run)', ['lifecycle'])]),
    'C11': dict(units=PUB('getPlacesProperties|getTransitionsProperties|getNumberOfTokens|getActionsThreadOption|getEventLoopSleepDuration|setEventLoopSleepDuration|printState')
                + [(r'PlacesManager::(getPlacesProperties|getNumberOfTokens|printState|getPlaces?|contains)', A), (r'TransitionsManager::(getTransitionsProperties|getTransition|contains)', A),
                   (r'Place::(placeProperties|get\w*|isInputPlace)', A), (r'Transition::get\w*', A), (r'EventLoop::(get|set)SleepDuration', A)]),
    'C12': dict(units=PUB('registerAction|registerCondition') + [(r'ManagedContainer<.*>::\w+', A)]),
    'C13': dict(units=[(r'utility::.*', A), (r'PTN_EngineImp::createPlace|PTN_EngineImp::createTransition|PTN_Engine(ImpProxy)?::(createPlace|createTransition)', ['bind', 'build']), (r'ManagedContainer<.*>::getItems?', A),
                       (r'Place::Place', ['build', 'throws', 'atomic']), (r'Transition::Transition', ['build']), (r'Place::(placeProperties|getOnEnterActionName|getOnExitActionName)', A), (r'Transition::getTransitionProperties', ['report'])]),
    'C14': dict(units=[(r'PTN_EngineImp::(executeInt|enabledTransitions)', A), (r'TransitionsManager::collectEnabledTransitionsRandomly', A), (r'EventLoop::start', A), (r'Transition::isEnabled', A),
                       (r'(PTN_EngineImp|PTN_EngineImpProxy|PTN_Engine)::execute', A), (r'PTN_EngineImp::getActionsThreadOption', A), (r'Transition::execute', ['fire'])]),
    'C15': dict(units=[(r'JobQueue::\w+', A), (r'JobQueueExecutor::executeAction', A)]),
    'C16': dict(units=[(r'JobQueue::\w+', A)]),
    'C17': dict(units=[(r'(SingleThread|Detached|JobQueue)Executor::\w+', A), (r'ActionsExecutorFactory::createExecutor', A), (r'JobQueue::\w+', A), (r'Place::isOnEnterActionInExecution', A)]),
    'C18': dict(units=PUB('setActionsThreadOption|getActionsThreadOption') + [(r'PlacesManager::setActionsExecutor', A), (r'Place::setActionsExecutor', A), (r'Place::Place', ['exec', 'build']),
                       (r'PTN_EngineImp::createPlace', ['exec', 'netinv', 'build']), (r'ActionsExecutorFactory::createExecutor', A), (r'EventLoop::isRunning', A), (r'PTN_EngineImp::PTN_EngineImp|PTN_EngineImpProxy::PTN_EngineImpProxy|PTN_Engine::PTN_Engine', ['exec', 'netinv', 'throws', 'wf'])]),
    'C19': dict(units=[(r'utility::.*', A), (r'File(Ex|Im)porterFactory::\w+', A), (r'IFileExporter::\w+|XML_FileExporter::\w+|IFileImporter::\w+|XML_FileImporter::\w+|ActionsThreadOptionConversions::\w+', A),
                       (r'Place::placeProperties|Transition::get\w+|(PlacesManager::getPlaces|TransitionsManager::getTransitions)Properties|PTN_Engine(Imp|ImpProxy)?::(getPlacesProperties|getTransitionsProperties)', ['report']),
                       (r'PTN_Engine(Imp|ImpProxy)?::(createPlace|createTransition|addArc)', ['build', 'bind', 'arcs']), (r'Place::Place', ['build']), (r'Transition::(Transition|addArc)', ['build', 'arcs'])],
                assumes=['pugixml writes the tree it holds and reads the same tree back (save_file and load_file are trusted); names contain no NUL',
                         'XML_FileExporter and XML_FileImporter are the implementers of IFileExporter and IFileImporter the engine is given (their virtual functions are verified against the contracts _exportInt and _importInt rely on)',
                         'the export and import loops see the engine through its contracts: what it reports, and the sequence of calls made on it']),
    'C20': dict(units=[(r'XML_FileImporter::import\w+', ['num', 'import', 'SAFE']), (r'ActionsThreadOptionConversions::\w+', A), (r'IFileImporter::_importInt', ['import'])],
                assumes=['std::from_chars and std::string behave as modelled in dv/lib.py']),
    'C21': dict(units=[(r'.*', ['LOCK'])]),
    'C22': dict(units=[(r'.*', ['ORDER'])]),
    'C23': dict(units=[(r'EventLoop::(start|stop|run|isRunning|notifyNewEvent)', A)] + PUB('execute|stop|isEventLoopRunning')
                + [(r'EventLoop::EventLoop', A), (r'PTN_EngineImp::~PTN_EngineImp', A), (r'PTN_EngineImp::PTN_EngineImp|PTN_EngineImpProxy::PTN_EngineImpProxy|PTN_Engine::PTN_Engine', ['lifecycle'])]),
    'C24': dict(units=[(r'utility::.*', A), (r'Transition::execute', ['block', 'gate', 'fire', 'atomic', 'SAFE']), (r'Place::(isOnEnterActionInExecution|blockStartingOnEnterActions)', A), (r'Place::enterPlace', A),
                       (r'PTN_EngineImp::createTransition|PTN_Engine(ImpProxy)?::createTransition', ['build']), (r'Transition::Transition', ['build'])]),
    'C25': dict(units=[(r'PTN_Engine::\w+', A), (r'PTN_EngineImpProxy::\w+', A)]),
    'C26': dict(units=[(r'utility::.*', A), (r'PTN_EngineImp::\w+', ['netinv', 'wf', 'build', 'arcs', 'clear']), (r'PTN_Engine(ImpProxy)?::\w+', ['netinv', 'wf']), (r'(PlacesManager|TransitionsManager)::(insert|clear|contains)', A),
                       (r'Transition::(addArc|removeArc|Transition)', A), (r'Place::(getName|isInputPlace|Place)', A)]),
}

NOTES = {
    '*': 'Proved for all inputs and iterations, function by function, relative to the models of the C++ standard library in dv/lib.py and the assumptions listed in the evidence; '
         'a function whose source leaves the verified subset is reported and only searched for a bounded time.',
}
NOT_APPLICABLE = {
}
