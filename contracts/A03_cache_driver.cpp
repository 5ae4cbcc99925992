#include <cassert>
#include "../src/geometry/cache.cpp"
#include "types/geometry/point.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/distance.hpp"
using namespace map_matching_2;
template<typename CS>
double pts(const geometry::point_type<CS> &a, const geometry::point_type<CS> &b) {
    return geometry::azimuth_rad(a, b) + geometry::point_distance(a, b) + boost::geometry::get<0>(a) + boost::geometry::get<1>(a) +
        geometry::_cache_coordinate_system<geometry::point_type<CS>>();
}
template double pts<geometry::cs_geographic>(const geometry::point_type<geometry::cs_geographic> &, const geometry::point_type<geometry::cs_geographic> &);
template double pts<geometry::cs_spherical_equatorial>(const geometry::point_type<geometry::cs_spherical_equatorial> &, const geometry::point_type<geometry::cs_spherical_equatorial> &);
template double pts<geometry::cs_cartesian>(const geometry::point_type<geometry::cs_cartesian> &, const geometry::point_type<geometry::cs_cartesian> &);
