"""All contracts."""
import specs_net, specs_engine, specs_conc, specs_xml


def setup(C):
    specs_net.setup(C)
    specs_engine.setup(C)
    specs_conc.setup(C)
    specs_xml.setup(C)
    specs_xml.factories(C)


# rough cost of a unit, to start the long ones first
WEIGHT = {'Transition::execute': 40, 'Transition::Transition': 20, 'PTN_EngineImp::createPlace': 20, 'PTN_EngineImp::createTransition': 20,
          'PTN_EngineImp::executeInt': 20, 'Transition::removeArc': 20, 'Transition::addArc': 20, 'Transition::getTransitionProperties': 10}

# contracts of template members that the source may never instantiate
OPTIONAL = {'utility::detectRepeated<ptne::Place, ptne::ActivationPlaceRepetitionException>', 'utility::detectRepeated<ptne::Place, ptne::DestinationPlaceRepetitionException>',
            'utility::detectRepeated<ptne::Place, ptne::InhibitorPlaceRepetitionException>',
            'utility::detectRepeatedNames<std::basic_string<char>, ptne::RepeatedPlaceNamesException>', 'ManagedContainer<std::function<bool ()>>::getItem', 'ManagedContainer<std::function<void ()>>::getItems'}

ASSUMPTIONS = [
    'user actions and conditions terminate, do not throw out of an action, and do not call back into the net while it fires',
    'a condition keeps its value during one attempt to fire',
    'the C++ standard library behaves as modelled in dv/lib.py (containers, smart pointers, locks, strings, algorithms, functions)',
    'memory allocation succeeds; a container never reaches 2^60 elements',
    'between the operations of one function, other threads change the state only as the locks held allow (data protected by a lock not held is read where the code reads it)',
]
TRUSTED = ['clang 18 (AST of the current source)', 'dv/*.py (translation to verification conditions, standard library model)', 'z3 5.3.2', 'cvc5 1.1.2 (only for obligations listed under cvc5)']
