#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line_variant.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
using namespace map_matching_2;
namespace gn = geometry::network;
using P = geometry::point_type<geometry::cs_cartesian>;
using V = geometry::rich_line_variant<geometry::cs_cartesian>;
template class map_matching_2::geometry::network::route_data<double, double>;
template class map_matching_2::geometry::network::route<V>;
template class map_matching_2::geometry::network::lazy_route<V>;
template class map_matching_2::geometry::network::eager_route<V>;
