#ifndef MINILANELET_VISUALIZATION_HPP_
#define MINILANELET_VISUALIZATION_HPP_
#include <minilanelet/lanelet.hpp>
#include <visualization_msgs/msg/marker_array.hpp>
namespace lanelet::visualization
{
using Markers = visualization_msgs::msg::MarkerArray;
template <typename... Ts> Markers laneletsBoundaryAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers laneletsAsTriangleMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers laneletDirectionAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers lineStringsAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers autowareTrafficLightsAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers detectionAreasAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers parkingLotsAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers parkingSpacesAsMarkerArray(Ts &&...) { return {}; }
template <typename... Ts> Markers generateLaneletIdMarker(Ts &&...) { return {}; }
}  // namespace lanelet::visualization
#endif
