#include <cassert>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/median.hpp"
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
using P1 = boost::geometry::model::point<double, 1, geometry::cs_cartesian>;
using P3 = boost::geometry::model::point<double, 3, geometry::cs_cartesian>;
double use(std::vector<double> &v, double c) { return geometry::median(v) + geometry::median_absolute_deviation(c, v) + geometry::median_absolute_deviation(v); }
P use(const std::vector<P> &v) { return geometry::median_point(v); }
P1 use(const std::vector<P1> &v) { return geometry::median_point(v); }
P3 use(const std::vector<P3> &v) { return geometry::median_point(v); }
