#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
using B = geometry::rich_line<P, std::vector, std::allocator>;
using E = geometry::eager_rich_line<P, std::vector, std::allocator>;
using L = geometry::lazy_rich_line<P, std::vector, std::allocator>;
using D = geometry::linestring<P, std::vector, std::allocator>;
template class map_matching_2::geometry::rich_line_data<double,double>;
template class map_matching_2::geometry::rich_line<P, std::vector, std::allocator>;
template class map_matching_2::geometry::eager_rich_line<P, std::vector, std::allocator>;
template class map_matching_2::geometry::lazy_rich_line<P, std::vector, std::allocator>;
void use_cross(E &e, L &l, B &b, const E &ce, const L &cl, const B &cb, const D &cd, std::allocator<void> a) {
    e = cb; e = cl; l = cb; l = ce;
    E e1{cb}; E e2{cl}; E e3{cd}; E e1a{cb, a}; E e2a{cl, a};
    L l1{cb}; L l2{ce}; L l3{cd}; L l1a{cb, a}; L l2a{ce, a};
}
void use_merge(E &e, E &&e2, L &l, L &&l2) {
    e.merge(std::move(e2)); l.merge(std::move(l2));
}
void use_mergev(E &e, std::vector<E> &&e2, L &l, std::vector<L> &&l2) {
    e.merge(std::move(e2)); l.merge(std::move(l2));
}
