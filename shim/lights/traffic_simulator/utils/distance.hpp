#ifndef VERIF_LIGHTS_DISTANCE_HPP_
#define VERIF_LIGHTS_DISTANCE_HPP_
#include <geometry/spline/catmull_rom_spline_interface.hpp>
#include <lanelet2_core/Forward.h>
#include <optional>
namespace traffic_simulator::distance
{
auto distanceToTrafficLightStopLine(const math::geometry::CatmullRomSplineInterface & spline, const lanelet::Id traffic_light_id) -> std::optional<double>;
}
#endif
