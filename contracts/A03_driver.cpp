#include <cassert>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/models.hpp"
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
using D = geometry::linestring<P, std::vector, std::allocator>;
using S = boost::geometry::model::segment<P>;
double use(double a, double b) { return geometry::angle_diff(a, b) + geometry::direction_deg(a, b); }
double line(const D &d) { return geometry::directions_deg(d) + geometry::absolute_directions_deg(d) + geometry::combined_directions_deg(d).first + geometry::azimuth_line_deg(d); }
void segs(const std::vector<S> &s, const std::vector<double> &a) {
    (void) geometry::segments_directions_deg(s, a);
    (void) geometry::segments_absolute_directions_deg(s, a);
    (void) geometry::segments_combined_directions_deg(s, a);
    (void) geometry::segments_azimuths_deg(s);
    (void) geometry::segments_lengths(s);
}
double pts(const P &a, const P &b) { return geometry::azimuth_rad(a, b) + geometry::azimuth_deg(a, b) + geometry::point_distance(a, b) + geometry::equals_points(a, b); }
