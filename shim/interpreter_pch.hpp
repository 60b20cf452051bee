#include "interpreter_prelude.hpp"
#include <boost/json.hpp>
#include <boost/lexical_cast.hpp>
#include <regex>
#include <valarray>
#include <openscenario_interpreter/simulator_core.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/element.hpp>
