#include "h.hpp"
#include "types/geometry/point.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/azimuth.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/algorithm/distance.hpp"
#include "geometry/models.hpp"
using namespace map_matching_2;
namespace g = geometry;

static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

static void angles(h::Ctx &c) {
    static const double sp[] = {0, 360, 180, 90, 270, 45, 179.99999999999997, 180.00000000000003, 359.99999999999994, 5e-324, 1e-12, 0.1, 0.3};
    auto pick = [&] { return c.rng.flip() ? sp[c.rng.below(sizeof sp / sizeof *sp)] : c.rng.flip() ? (double) c.rng.in(0, 360) : c.rng.real(0, 360); };
    for (int i = 0; i < 20; ++i) {
        double a = pick(), b = pick();
        c.trace << a << "," << b << ";";
        c.nontrivial = true;
        for (int w = 0; w < 2; ++w) {
            double d = w ? g::direction_deg(a, b) : g::angle_diff(a, b);
            double e = w ? g::direction_deg(b, a) : g::angle_diff(b, a);
            c.require(d >= -180 and d <= 180, "angle range", "difference of ", a, " and ", b, " is ", d);
            double m = std::fabs(std::remainder((a - b) - d, 360.0));
            c.require(m <= 1e-9, "angle congruent", "difference of ", a, " and ", b, " is ", d);
            c.require(d == -e, "angle antisymmetric", "difference of ", a, " and ", b, " is ", d, ", the other way round ", e);
            if (std::fabs(a - b) < 180) c.require(d == a - b, "angle small", "difference of ", a, " and ", b, " is ", d);
        }
        float fa = (float) a, fb = (float) b;
        float fd = g::angle_diff(fa, fb);
        c.require(fd >= -180 and fd <= 180, "angle range", "float difference of ", fa, " and ", fb, " is ", fd);
        c.require(near(g::rad2deg(g::deg2rad(a)), a), "deg rad", a, " degrees");
        c.require(near(g::deg2rad(180.0), 3.14159265358979323846), "deg rad", "180 degrees");
    }
}

template<class CS>
static void lists(h::Ctx &c) {
    using P = g::point_type<CS>;
    using D = g::linestring<P, std::vector, std::allocator>;
    using S = boost::geometry::model::segment<P>;
    constexpr bool cart = std::is_same_v<CS, g::cs_cartesian>, sph = std::is_same_v<CS, g::cs_spherical_equatorial>;
    g::disable_cache();
    std::size_t n = c.rng.below(c.rng.flip(20) ? 12 : 5);
    D d;
    for (std::size_t i = 0; i < n; ++i) d.push_back(c.rng.flip() ? P{(double) c.rng.in(1, 4), (double) c.rng.in(1, 4)} : P{c.rng.real(-50, 50), c.rng.real(-50, 50)});
    for (auto &p : d) c.trace << "(" << p.template get<0>() << "," << p.template get<1>() << ")";
    c.trace << (cart ? "cartesian" : sph ? "spherical" : "geographic");
    c.nontrivial = n >= 3;
    auto X = [](const P &p) { return p.template get<0>(); };
    auto Y = [](const P &p) { return p.template get<1>(); };
    const double rad = 3.14159265358979323846 / 180;
    auto dist = [&](const P &a, const P &b) -> double {
        if (cart) return std::hypot(X(a) - X(b), Y(a) - Y(b));
        if (sph) {
            double s1 = std::sin((Y(b) - Y(a)) * rad / 2), s2 = std::sin((X(b) - X(a)) * rad / 2);
            return 2 * 6371000.0 * std::asin(std::sqrt(s1 * s1 + std::cos(Y(a) * rad) * std::cos(Y(b) * rad) * s2 * s2));
        }
        return boost::geometry::distance(a, b);
    };
    auto azi = [&](const P &a, const P &b) -> double { return boost::geometry::azimuth(a, b) / rad; };
    auto dif = [&](double a, double b) { double x = a - b; return x >= 180 ? x - 360 : x <= -180 ? x + 360 : x; };
    std::vector<S> segs;
    std::vector<double> az, le;
    for (std::size_t i = 0; i + 1 < n; ++i) {
        segs.emplace_back(d[i], d[i + 1]);
        az.push_back(azi(d[i], d[i + 1]));
        le.push_back(dist(d[i], d[i + 1]));
        c.require(near(g::azimuth_deg(d[i], d[i + 1]), az[i]), "azimuth", "segment ", i, " ", g::azimuth_deg(d[i], d[i + 1]), " instead of ", az[i]);
        if (cart and not g::equals_points(d[i], d[i + 1])) c.require(std::fabs(std::remainder(g::azimuth_deg(d[i], d[i + 1]) - std::atan2(X(d[i + 1]) - X(d[i]), Y(d[i + 1]) - Y(d[i])) / rad, 360)) < 1e-9, "azimuth", "segment ", i);
        c.require(near(g::azimuth_segment_deg(segs[i]), az[i]), "azimuth", "of segment ", i);
        c.require(near(g::point_distance(d[i], d[i + 1]), le[i], 1e-7), "distance", "segment ", i, " ", g::point_distance(d[i], d[i + 1]), " instead of ", le[i]);
        c.require(near(g::distance(d[i], d[i + 1]), le[i], 1e-7), "distance", "segment ", i);
        c.require(near(g::length_segment(segs[i]), le[i], 1e-7), "distance", "length of segment ", i);
    }
    std::vector<double> di, ad;
    double sum = 0, asum = 0, lsum = 0;
    for (std::size_t i = 0; i + 2 < n; ++i) { di.push_back(dif(az[i], az[i + 1])); ad.push_back(std::fabs(di[i])); sum += di[i]; asum += ad[i]; }
    for (double x : le) lsum += x;
    auto list = [&](const char *nm, const std::vector<double> &got, const std::vector<double> &want) {
        c.require(got.size() == want.size(), nm, nm, " has ", got.size(), " values instead of ", want.size());
        for (std::size_t i = 0; i < got.size(); ++i) c.require(near(got[i], want[i], 1e-7) or std::fabs(std::fabs(want[i]) - 180) < 1e-9 and std::fabs(std::fabs(got[i]) - 180) < 1e-9, nm, nm, " ", i, " is ", got[i], " instead of ", want[i]);
    };
    list("segments azimuths", g::segments_azimuths_deg(segs), az);
    list("segments lengths", g::segments_lengths(segs), le);
    bool flat = false;
    for (double x : ad) flat |= std::fabs(x - 180) < 1e-9; // a reversal may round to either sign
    for (int w = 0; w < 2; ++w) {
        std::vector<double> a = w ? g::segments_azimuths_deg(segs) : std::vector<double>{};
        list("segments directions", g::segments_directions_deg(segs, a), di);
        list("segments absolute directions", g::segments_absolute_directions_deg(segs, a), ad);
        auto co = g::segments_combined_directions_deg(segs, a);
        list("segments combined directions", co.first, di);
        list("segments combined directions", co.second, ad);
    }
    auto sums = [&](const char *nm, double got, double want) { c.require(near(got, want, 1e-7), nm, nm, " is ", got, " instead of ", want); };
    if (not flat) sums("directions", g::directions_deg(d), sum), sums("directions", g::combined_directions_deg(d).first, sum);
    sums("absolute directions", g::absolute_directions_deg(d), asum);
    sums("absolute directions", g::combined_directions_deg(d).second, asum);
    sums("line azimuth", g::azimuth_line_deg(d), n >= 2 ? azi(d.front(), d.back()) : 0.0);
    sums("line length", g::length(d), lsum);
}

// a shared pool of coordinates asked through the caches in all coordinate systems
static void cache(h::Ctx &c) {
    g::reset_distance_cache();
    g::reset_azimuth_cache();
    if (c.rng.flip(20)) { g::distance_cache.reset(); g::azimuth_cache.reset(); }
    std::vector<double> co;
    for (int i = 0; i < 4; ++i) co.push_back(c.rng.flip() ? (double) c.rng.in(1, 3) : c.rng.real(1, 80));
    c.nontrivial = true;
    for (int i = 0; i < 40; ++i) {
        double x0 = co[c.rng.below(4)], y0 = co[c.rng.below(4)], x1 = co[c.rng.below(4)], y1 = co[c.rng.below(4)];
        int cs = c.rng.below(3);
        bool az = c.rng.flip();
        if (c.rng.flip(3)) g::reset_distance_cache();
        if (c.rng.flip(3)) g::reset_azimuth_cache();
        c.trace << (az ? "azimuth " : "distance ") << cs << " " << x0 << "," << y0 << " " << x1 << "," << y1 << ";";
        auto go = [&](auto a, auto b) {
            g::disable_cache();
            double want = az ? g::azimuth_rad(a, b) : g::point_distance(a, b);
            g::enable_cache();
            double got = az ? g::azimuth_rad(a, b) : g::point_distance(a, b);
            g::disable_cache();
            c.require(h::same(got, want), "cache", (az ? "azimuth" : "distance"), " with cache is ", got, " without ", want);
        };
        if (cs == 0) go(g::point_type<g::cs_cartesian>{x0, y0}, g::point_type<g::cs_cartesian>{x1, y1});
        if (cs == 1) go(g::point_type<g::cs_geographic>{x0, y0}, g::point_type<g::cs_geographic>{x1, y1});
        if (cs == 2) go(g::point_type<g::cs_spherical_equatorial>{x0, y0}, g::point_type<g::cs_spherical_equatorial>{x1, y1});
    }
}

int main(int argc, char **argv) {
    return h::run(argc, argv, std::vector<h::Group>{angles, lists<g::cs_cartesian>, lists<g::cs_geographic>, lists<g::cs_spherical_equatorial>, cache});
}
