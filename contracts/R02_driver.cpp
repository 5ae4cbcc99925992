#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
using B = geometry::rich_line<P, std::vector, std::allocator>;
using ML = geometry::linestring<P, std::vector, std::allocator>;
using PM = geometry::multi_rich_line<B, std::vector, std::allocator>;
using EM = geometry::eager_multi_rich_line<B, std::vector, std::allocator>;
using LM = geometry::lazy_multi_rich_line<B, std::vector, std::allocator>;
template class map_matching_2::geometry::multi_rich_line_data<double, double>;
template class map_matching_2::geometry::multi_rich_line<B, std::vector, std::allocator>;
template class map_matching_2::geometry::eager_multi_rich_line<B, std::vector, std::allocator>;
template class map_matching_2::geometry::lazy_multi_rich_line<B, std::vector, std::allocator>;
void use_cross(EM &e, LM &l, PM &b, const EM &ce, const LM &cl, const PM &cb) {
    e = cb; l = cb; e = cl; l = ce;
    EM e1{cb}; LM l1{cb}; LM l2{ce};
    EM e2{cl};
}
