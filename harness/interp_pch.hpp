// what the interpreter's own precompiled header provides
#ifndef VERIF_INTERP_PCH
#define VERIF_INTERP_PCH
#include <boost/json.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <openscenario_interpreter/record.hpp>
#include <openscenario_interpreter/simulator_core.hpp>
#include <pugixml.hpp>
#include <rclcpp/rclcpp.hpp>
#include <traffic_simulator/api/api.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/scope.hpp>
#endif
