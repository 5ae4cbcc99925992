#include "h.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
using namespace map_matching_2;
namespace g = geometry;

template<class CS>
struct T {
    using P = g::point_type<CS>;
    using B = g::rich_line<P, std::vector, std::allocator>;
    using E = g::eager_rich_line<P, std::vector, std::allocator>;
    using L = g::lazy_rich_line<P, std::vector, std::allocator>;
    using D = g::linestring<P, std::vector, std::allocator>;
    static constexpr double inf = std::numeric_limits<double>::infinity();

    static bool near(double a, double b) { return h::same(a, b) || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
    static bool ok(double x) { return not std::isnan(x) and not std::isinf(x); }
    static P point(h::Rng &r) {
        if (r.flip(70)) return P{(double) r.in(0, 3), (double) r.in(0, 3)};
        return P{r.real(-50, 50), r.real(-50, 50)};
    }
    static std::string show(const D &d) {
        std::ostringstream o; o.precision(17);
        for (const auto &p : d) o << "(" << p.template get<0>() << "," << p.template get<1>() << ")";
        return o.str();
    }
    // oracle: every attribute from the points alone
    struct Spec { double len = inf, azi = inf, dir = inf, adir = inf; std::vector<double> L, A; };
    static Spec spec(const D &p) {
        Spec s;
        bool hl = false, hd = false;
        double len = 0, dir = 0, ad = 0;
        for (std::size_t i = 0; i + 1 < p.size(); ++i) {
            bool eq = g::equals_points(p[i], p[i + 1]);
            s.L.push_back(eq ? inf : (double) g::point_distance(p[i], p[i + 1]));
            s.A.push_back(eq ? inf : (double) g::azimuth_deg(p[i], p[i + 1]));
            if (ok(s.L.back())) { len += s.L.back(); hl = true; }
        }
        for (std::size_t i = 0; i + 1 < s.A.size(); ++i)
            if (ok(s.A[i]) and ok(s.A[i + 1])) { double d = g::direction_deg(s.A[i], s.A[i + 1]); dir += d; ad += std::fabs(d); hd = true; }
        if (hl) s.len = len;
        if (hd) { s.dir = dir; s.adir = ad; }
        if (p.size() >= 2 and not g::equals_points(p.front(), p.back())) s.azi = g::azimuth_deg(p.front(), p.back());
        return s;
    }
    static void one(h::Ctx &c, const char *what, double got, double want, bool empty) {
        c.require(near(got, want) or (empty and std::isnan(got)), what, what, " is ", got, ", recomputed from the points ", want);
    }
    template<class X>
    static void attr(h::Ctx &c, const X &x, const Spec &s, int k, std::size_t i, std::size_t n) {
        switch (k) {
        case 0: one(c, "length", x.length(), s.len, n == 0); c.require(x.has_length() == ok(s.len), "has_length", "has_length"); break;
        case 1: one(c, "azimuth", x.azimuth(), s.azi, n == 0); c.require(x.has_azimuth() == ok(s.azi), "has_azimuth", "has_azimuth"); break;
        case 2: one(c, "directions", x.directions(), s.dir, n == 0); c.require(x.has_directions() == ok(s.dir), "has_directions", "has_directions"); break;
        case 3: one(c, "absolute_directions", x.absolute_directions(), s.adir, n == 0); break;
        case 4: if (i < s.L.size()) { one(c, "length(pos)", x.length(i), s.L[i], false); c.require(x.has_length(i) == ok(s.L[i]), "has_length(pos)", "has_length(", i, ")"); } break;
        case 5: if (i < s.A.size()) { one(c, "azimuth(pos)", x.azimuth(i), s.A[i], false); c.require(x.has_azimuth(i) == ok(s.A[i]), "has_azimuth(pos)", "has_azimuth(", i, ")"); } break;
        case 6: if (i + 1 < s.A.size()) {
                bool v = ok(s.A[i]) and ok(s.A[i + 1]);
                if (v) { one(c, "direction(pos)", x.direction(i), g::direction_deg(s.A[i], s.A[i + 1]), false); one(c, "absolute_direction(pos)", x.absolute_direction(i), std::fabs(g::direction_deg(s.A[i], s.A[i + 1])), false); }
                else (void) x.direction(i);
                c.require(x.has_direction(i) == v, "has_direction(pos)", "has_direction(", i, ")"); } break;
        case 7: { const auto &l = x.lengths(); constexpr bool lz = std::is_base_of_v<L, X>; // a lazy line lists what it knows so far
                c.require(l.size() == s.L.size() or (lz and l.empty()), "lengths size", "lengths() has ", l.size(), " entries for ", n, " points"); for (std::size_t q = 0; q < l.size(); ++q) if (not lz or not std::isnan(l[q])) one(c, "lengths()", l[q], s.L[q], false); break; }
        case 8: { const auto &l = x.azimuths(); constexpr bool lz = std::is_base_of_v<L, X>; // a lazy line lists what it knows so far
                c.require(l.size() == s.A.size() or (lz and l.empty()), "azimuths size", "azimuths() has ", l.size(), " entries for ", n, " points"); for (std::size_t q = 0; q < l.size(); ++q) if (not lz or not std::isnan(l[q])) one(c, "azimuths()", l[q], s.A[q], false); break; }
        }
    }
    template<class X>
    static void full(h::Ctx &c, const X &x, const D &want, const char *who) {
        D pts(x.line());
        c.require(show(pts) == show(want), "points", who, " has points ", show(pts), " instead of ", show(want));
        auto s = spec(want);
        try {
            int off = (int) c.rng.below(9);
            for (int q = 0; q < 9; ++q) for (std::size_t i = 0; i < std::max<std::size_t>(1, want.size()); ++i) attr(c, x, s, (q + off) % 9, i, want.size());
        } catch (const h::Fail &f) { throw h::Fail(f.key, std::string(who) + ": " + f.what() + " for " + show(want)); }
        if (want.size() >= 1) {
            bool thrown = false;
            try { (void) x.length(want.size() - 1); } catch (const std::out_of_range &) { thrown = true; }
            c.require(thrown, "range", who, ": length(pos) out of range does not throw");
        }
    }
    template<class X>
    static void poke(h::Ctx &c, const X &x, const D &want) { // partial evaluation of lazy attributes
        auto s = spec(want);
        for (std::size_t q = c.rng.below(4); q-- > 0;) { int k = (int) c.rng.below(9); std::size_t i = c.rng.below(std::max<std::size_t>(1, want.size())); c.trace << " get" << k << "," << i; attr(c, x, s, k, i, want.size()); }
    }
    static D rnd(h::Ctx &c, std::size_t maxn = 6) {
        D d;
        for (std::size_t n = c.rng.below(maxn + 1); n-- > 0;) d.push_back(c.rng.flip(15) and not d.empty() ? d.back() : point(c.rng));
        return d;
    }
    template<class X, class Y>
    static void ops(h::Ctx &c, const char *nm) {
        c.trace << nm << ": ";
        D m = rnd(c);
        c.trace << "line " << show(m);
        X x = c.rng.flip() ? X{D{m}} : X{D{m}, std::allocator<void>{}};
        std::size_t nops = 1 + c.rng.below(5);
        c.nontrivial = m.size() >= 2;
        for (std::size_t o = 0; o < nops; ++o) {
            if (c.rng.flip(60)) poke(c, x, m);
            if (c.rng.flip(30)) { c.trace << " check"; full(c, x, m, nm); }
            c.trace << "\n ";
            switch (c.rng.below(16)) {
            case 0: { c.trace << "copy"; X y{x}; full(c, X(y), m, nm); x = y; break; }
            case 1: { c.trace << "move"; X y{std::move(x)}; x = std::move(y); break; }
            case 2: { D d = rnd(c); c.trace << "assign copy " << show(d); X y{D{d}}; poke(c, y, d); x = y; m = d; break; }
            case 3: { D d = rnd(c); c.trace << "assign points " << show(d); x = D{d}; m = d; break; }
            case 4: { D d = rnd(c); c.trace << "assign plain line " << show(d); B b{D{d}}; x = b; m = d; break; }
            case 5: { D d = rnd(c); c.trace << "assign other kind " << show(d); Y y{D{d}}; poke(c, y, d); x = y; m = d; break; }
            case 6: { D d = rnd(c); c.trace << "from other kind " << show(d); Y y{D{d}}; poke(c, y, d); x = c.rng.flip() ? X{y} : X{y, std::allocator<void>{}}; m = d; break; }
            case 7: { D d = rnd(c); c.trace << "from plain line " << show(d); B b{D{d}}; x = c.rng.flip() ? X{b} : X{b, std::allocator<void>{}}; m = d; break; }
            case 8: case 9: { if (m.empty()) break; std::size_t i = c.rng.flip(30) ? m.size() - 1 : c.rng.below(m.size()); c.trace << "erase " << i; x.erase(i, true); m.erase(m.begin() + i); break; }
            case 10: { std::vector<std::size_t> is; for (std::size_t i = 0; i < m.size(); ++i) if (c.rng.flip(35)) is.push_back(i);
                c.trace << "erase {"; for (auto i : is) c.trace << i << ","; c.trace << "}"; x.erase(is); for (auto i = is.size(); i-- > 0;) m.erase(m.begin() + is[i]); break; }
            case 11: case 12: { if (m.empty()) break; std::size_t f = c.rng.below(m.size()), t = f + c.rng.below(m.size() - f + 1); if (c.rng.flip(30)) { f = 0; } if (c.rng.flip(30)) t = m.size(); if (f >= m.size() or f > t) break;
                c.trace << "sub " << f << "," << t; x = c.rng.flip() ? x.sub_rich_line(f, t) : x.sub_rich_line(f, t, std::allocator<void>{}); m = D(m.begin() + f, m.begin() + t); break; }
            case 13: { D d = rnd(c); if (not m.empty() and not d.empty()) d.front() = m.back(); c.trace << "merge " << show(d); X y{D{d}}; poke(c, y, d); x.merge(std::move(y)); m.insert(m.end(), m.empty() or d.empty() ? d.begin() : d.begin() + 1, d.end()); break; }
            case 14: { D d = rnd(c), e = rnd(c); if (m.empty() or d.size() < 2 or e.size() < 2) break; d.front() = m.back(); e.front() = d.back(); c.trace << "merge " << show(d) << " and " << show(e); X y{D{d}}, z{D{e}}; poke(c, y, d); x.merge(std::move(y), std::move(z)); m.insert(m.end(), d.begin() + 1, d.end()); m.insert(m.end(), e.begin() + 1, e.end()); break; }
            case 15: { D d = rnd(c), e = rnd(c); if (m.empty() or d.size() < 2 or e.size() < 2) break; d.front() = m.back(); e.front() = d.back(); c.trace << "merge vector " << show(d) << " and " << show(e); std::vector<X> v; v.emplace_back(D{d}); v.emplace_back(D{e}); poke(c, v[0], d); x.merge(std::move(v)); m.insert(m.end(), d.begin() + 1, d.end()); m.insert(m.end(), e.begin() + 1, e.end()); break; }
            }
        }
        c.trace << " check";
        full(c, x, m, nm);
    }
};

int main(int argc, char **argv) {
    using C = T<g::cs_cartesian>;
    using G = T<g::cs_geographic>;
    return h::run(argc, argv, std::vector<h::Group>{
        [](h::Ctx &c) { C::ops<C::E, C::L>(c, "eager cartesian"); }, [](h::Ctx &c) { C::ops<C::L, C::E>(c, "lazy cartesian"); },
        [](h::Ctx &c) { C::ops<C::L, C::E>(c, "lazy cartesian"); },
        [](h::Ctx &c) { if (c.rng.flip()) G::ops<G::E, G::L>(c, "eager geographic"); else G::ops<G::L, G::E>(c, "lazy geographic"); }});
}
