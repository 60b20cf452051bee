// What the interpreter's precompiled header brings in (see its CMakeLists.txt).
#include "prelude.hpp"
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <pugixml.hpp>
#include <openscenario_interpreter/object.hpp>
