#include "h.hpp"
#include <deque>
#include <algorithm>
#include <cassert>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/median.hpp"
using namespace map_matching_2;
namespace g = geometry;

template<class F>
static F med(std::vector<F> v) {
    std::sort(v.begin(), v.end());
    std::size_t m = v.size() / 2;
    return v.size() % 2 ? v[m] : (v[m - 1] + v[m]) / (F) 2;
}

template<class F>
static std::vector<F> list(h::Ctx &c) {
    std::size_t n = 1 + c.rng.below(c.rng.flip(20) ? 200 : c.rng.flip() ? 40 : 8);
    int kind = c.rng.below(4);
    std::vector<F> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(kind == 0 ? (F) c.rng.in(0, 3) : kind == 1 ? (F) c.rng.real(-100, 100) : kind == 2 ? (F) (i * (c.rng.flip(90) ? 1 : 7)) : (F) (n - i));
    for (F x : v) c.trace << x << ",";
    c.nontrivial = n >= 2;
    return v;
}

template<class F, template<class, class> class C>
static void medians(h::Ctx &c) {
    auto v = list<F>(c);
    using X = C<F, std::allocator<F>>;
    X x(v.begin(), v.end());
    F m = med(v);
    F got = g::median(x);
    c.require(h::same(got, m), "median", "median is ", got, " instead of ", m);
    std::vector<F> a(x.begin(), x.end()), b = v;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    c.require(a == b, "median elements", "the elements changed");
    F center = c.rng.flip() ? m : (F) c.rng.in(-5, 5);
    auto dev = v;
    for (F &e : dev) e = std::abs(e - center);
    x = X(v.begin(), v.end());
    got = g::median_absolute_deviation(center, x);
    c.require(h::same(got, med(dev)), "deviation", "deviation from ", center, " is ", got, " instead of ", med(dev));
    dev = v;
    for (F &e : dev) e = std::abs(e - m);
    x = X(v.begin(), v.end());
    got = g::median_absolute_deviation(x);
    c.require(h::same(got, med(dev)), "deviation", "deviation is ", got, " instead of ", med(dev));
}

template<class P>
static void points(h::Ctx &c) {
    constexpr std::size_t D = boost::geometry::dimension<P>::value;
    auto v = list<double>(c);
    std::vector<double> co[3];
    std::vector<P> ps;
    for (std::size_t i = 0; i < v.size(); ++i) {
        P p;
        for (std::size_t d = 0; d < D; ++d) co[d].push_back(d == 0 ? v[i] : c.rng.flip() ? (double) c.rng.in(0, 5) : c.rng.real(-9, 9));
        boost::geometry::set<0>(p, co[0][i]);
        if constexpr (D >= 2) boost::geometry::set<1>(p, co[1][i]);
        if constexpr (D >= 3) boost::geometry::set<2>(p, co[2][i]);
        for (std::size_t d = 1; d < D; ++d) c.trace << co[d][i] << ";";
        ps.push_back(p);
    }
    P r = g::median_point(ps);
    c.require(h::same(boost::geometry::get<0>(r), med(co[0])), "median point", "first coordinate");
    if constexpr (D >= 2) c.require(h::same(boost::geometry::get<1>(r), med(co[1])), "median point", "second coordinate");
    if constexpr (D >= 3) c.require(h::same(boost::geometry::get<2>(r), med(co[2])), "median point", "third coordinate");
}

int main(int argc, char **argv) {
    return h::run(argc, argv, std::vector<h::Group>{medians<double, std::vector>, medians<float, std::vector>, medians<double, std::deque>, points<g::point_type<g::cs_cartesian>>, points<boost::geometry::model::point<double, 3, g::cs_cartesian>>, points<boost::geometry::model::point<double, 1, g::cs_cartesian>>});
}
