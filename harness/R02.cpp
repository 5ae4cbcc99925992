#include "h.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
using namespace map_matching_2;
namespace g = geometry;

template<class CS>
struct T {
    using P = g::point_type<CS>;
    using D = g::linestring<P, std::vector, std::allocator>;
    using B = g::rich_line<P, std::vector, std::allocator>;
    static constexpr double inf = std::numeric_limits<double>::infinity();

    static bool ok(double x) { return not std::isnan(x) and not std::isinf(x); }
    static bool near(double a, double b) { return h::same(a, b) || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
    using M = std::vector<D>;
    static std::string show(const M &m) {
        std::ostringstream o;
        o.precision(17);
        for (const auto &d : m) { o << "["; for (const auto &p : d) o << "(" << p.template get<0>() << "," << p.template get<1>() << ")"; o << "]"; }
        return o.str();
    }
    static P point(h::Rng &r) {
        if (r.flip(70)) return P{(double) r.in(0, 3), (double) r.in(0, 3)};
        return P{r.real(-50, 50), r.real(-50, 50)};
    }
    static D line(h::Ctx &c, const D *before) {
        D d;
        for (std::size_t n = 1 + c.rng.below(4); n-- > 0;) d.push_back(c.rng.flip(15) and not d.empty() ? d.back() : point(c.rng));
        if (before and c.rng.flip(70)) d.front() = before->back();
        return d;
    }
    static M rnd(h::Ctx &c) {
        M m;
        for (std::size_t n = c.rng.below(4); n-- > 0;) m.push_back(line(c, m.empty() ? nullptr : &m.back()));
        return m;
    }
    // oracle: from the points alone
    struct Spec { double len = inf, azi = inf, dir = inf, adir = inf; std::vector<double> L, A; };
    struct Seg { bool has; double len, azi; };
    static std::vector<Seg> segs(const D &d) {
        std::vector<Seg> s;
        for (std::size_t i = 0; i + 1 < d.size(); ++i) {
            bool eq = g::equals_points(d[i], d[i + 1]);
            s.push_back({not eq, eq ? 0 : (double) g::point_distance(d[i], d[i + 1]), eq ? 0 : (double) g::azimuth_deg(d[i], d[i + 1])});
        }
        return s;
    }
    static Spec spec(const M &m) {
        Spec r;
        bool hl = false, hd = false;
        double len = 0, dir = 0, ad = 0;
        for (std::size_t q = 0; q < m.size(); ++q) {
            auto s = segs(m[q]);
            bool has = false;
            double l = 0;
            for (const auto &x : s) if (x.has) { l += x.len; has = true; }
            r.L.push_back(has ? l : inf);
            if (has) { len += l; hl = true; }
            for (std::size_t i = 0; i + 1 < s.size(); ++i) if (s[i].has and s[i + 1].has) { double d = g::direction_deg(s[i].azi, s[i + 1].azi); dir += d; ad += std::fabs(d); hd = true; }
            if (q + 1 < m.size()) {
                auto t = segs(m[q + 1]);
                double d = inf;
                if (g::equals_points(m[q].back(), m[q + 1].front()) and not s.empty() and s.back().has and not t.empty() and t.front().has) {
                    d = g::direction_deg(s.back().azi, t.front().azi);
                    dir += d; ad += std::fabs(d); hd = true;
                }
                r.A.push_back(d);
            }
        }
        if (hl) r.len = len;
        if (hd) { r.dir = dir; r.adir = ad; }
        if (not m.empty() and not g::equals_points(m.front().front(), m.back().back())) r.azi = g::azimuth_deg(m.front().front(), m.back().back());
        return r;
    }
    template<class X> struct kind { static constexpr bool plain = true; };
    template<class L> struct kind<g::lazy_multi_rich_line<L, std::vector, std::allocator>> { static constexpr bool plain = false; };
    template<class L> struct kind<g::eager_multi_rich_line<L, std::vector, std::allocator>> { static constexpr bool plain = false; };

    template<class F>
    static void one(h::Ctx &c, bool plain, const char *what, F &&f, double want, bool empty) {
        if (plain and not ok(want)) {
            bool thrown = false;
            try { (void) f(); } catch (const std::exception &) { thrown = true; }
            c.require(thrown, what, "a plain line returns a ", what, " it does not have");
            return;
        }
        double got = f();
        c.require(near(got, want) or (empty and std::isnan(got)), what, what, " is ", got, ", recomputed from the lines ", want);
    }
    template<class X>
    static void attr(h::Ctx &c, const X &x, const Spec &s, int k, bool empty) {
        constexpr bool pl = kind<X>::plain;
        switch (k) {
        case 0: one(c, pl, "length", [&] { return x.length(); }, s.len, empty); c.require(x.has_length() == ok(s.len), "has_length", "has_length is ", x.has_length()); break;
        case 1: c.require(x.has_length() == ok(s.len), "has_length", "has_length is ", x.has_length()); break;
        case 2: one(c, pl, "azimuth", [&] { return x.azimuth(); }, s.azi, empty); c.require(x.has_azimuth() == ok(s.azi), "has_azimuth", "has_azimuth is ", x.has_azimuth()); break;
        case 3: c.require(x.has_directions() == ok(s.dir), "has_directions", "has_directions is ", x.has_directions()); break;
        case 4: one(c, pl, "directions", [&] { return x.directions(); }, s.dir, empty); break;
        case 5: one(c, pl, "absolute_directions", [&] { return x.absolute_directions(); }, s.adir, empty); break;
        case 6: if constexpr (not pl) {
            constexpr bool lz = std::is_same_v<X, g::lazy_multi_rich_line<typename X::rich_line_type, std::vector, std::allocator>>;
            const auto &l = x.lengths();
            c.require(l.size() == s.L.size() or (lz and l.empty()), "lengths size", "lengths() has ", l.size(), " entries for ", s.L.size(), " lines");
            for (std::size_t q = 0; q < l.size(); ++q) c.require(near(l[q], s.L[q]), "lengths()", "lengths()[", q, "] is ", l[q], ", the line has ", s.L[q]);
            const auto &a = x.azimuths();
            c.require(a.size() == s.A.size() or (lz and a.empty()), "turns size", "azimuths() has ", a.size(), " entries for ", s.L.size(), " lines");
            for (std::size_t q = 0; q < a.size(); ++q) c.require(near(a[q], s.A[q]), "azimuths()", "azimuths()[", q, "] is ", a[q], ", the turn is ", s.A[q]);
        } break;
        }
    }
    template<class X>
    static void full(h::Ctx &c, const X &x, const M &want, const char *who) {
        M got;
        for (std::size_t i = 0; i < x.size(); ++i) got.emplace_back(D(x[i].line()));
        c.require(show(got) == show(want), "lines", who, " has lines ", show(got), " instead of ", show(want));
        auto s = spec(want);
        try {
            int off = (int) c.rng.below(7);
            for (int q = 0; q < 7; ++q) attr(c, x, s, (q + off) % 7, want.empty());
        } catch (const h::Fail &f) { throw h::Fail(f.key, std::string(who) + ": " + f.what() + " for " + show(want)); }
        catch (const std::exception &e) { throw h::Fail("throws", std::string(who) + " throws " + e.what() + " for " + show(want)); }
    }
    template<class X>
    static void poke(h::Ctx &c, const X &x, const M &want) {
        auto s = spec(want);
        for (std::size_t q = c.rng.below(3); q-- > 0;) { int k = (int) c.rng.below(7); c.trace << " get" << k; attr(c, x, s, k, want.empty()); }
    }
    template<class X>
    static X make(const M &m) {
        std::vector<typename X::rich_line_type> v;
        for (const auto &d : m) v.emplace_back(D{d});
        return X{std::move(v)};
    }
    template<class L, class X, class Y>
    static void ops(h::Ctx &c, const char *nm) {
        using PM = g::multi_rich_line<L, std::vector, std::allocator>;
        c.trace << nm << ": ";
        M m = rnd(c);
        c.trace << "lines " << show(m);
        c.nontrivial = m.size() >= 2;
        std::vector<L> v;
        for (const auto &d : m) v.emplace_back(D{d});
        X x = c.rng.flip() ? X{std::move(v)} : X{std::move(v), std::allocator<void>{}};
        std::size_t nops = 1 + c.rng.below(5);
        for (std::size_t o = 0; o < nops; ++o) {
            if (c.rng.flip(60)) poke(c, x, m);
            if (c.rng.flip(30)) { c.trace << " check"; full(c, x, m, nm); }
            c.trace << "\n ";
            switch (c.rng.below(10)) {
            case 0: { c.trace << "copy"; X y{x}; full(c, X(y), m, nm); x = y; break; }
            case 1: { c.trace << "move"; X y{std::move(x)}; x = std::move(y); break; }
            case 2: { M d = rnd(c); c.trace << "assign copy " << show(d); X y = make<X>(d); poke(c, y, d); x = y; m = d; break; }
            case 3: { M d = rnd(c); c.trace << "assign plain multi line " << show(d); PM b = make<PM>(d); x = b; m = d; break; }
            case 4: { M d = rnd(c); c.trace << "assign other kind " << show(d); Y y = make<Y>(d); poke(c, y, d); x = y; m = d; break; }
            case 5: { M d = rnd(c); c.trace << "from other kind " << show(d); Y y = make<Y>(d); poke(c, y, d); x = X{y}; m = d; break; }
            case 6: { M d = rnd(c); c.trace << "from plain multi line " << show(d); PM b = make<PM>(d); full(c, b, d, "plain"); x = X{b}; m = d; break; }
            case 7: { D d = line(c, nullptr); c.trace << "from one line " << show({d}); L l{D{d}}; x = c.rng.flip() ? X{std::move(l)} : X{std::move(l), std::allocator<void>{}}; m = {d}; break; }
            case 8: { M d = rnd(c); c.trace << "move assign " << show(d); X y = make<X>(d); poke(c, y, d); x = std::move(y); m = d; break; }
            case 9: { // merge a sequence of lines: connected ones become one line
                M d = rnd(c);
                if (d.empty()) break;
                bool clean = true; // joining points that compare equal are the same point
                for (std::size_t q = 0; q + 1 < d.size(); ++q) if (g::equals_points(d[q].back(), d[q + 1].front()) and show({D{d[q].back()}}) != show({D{d[q + 1].front()}})) clean = false;
                if (not clean) break;
                c.trace << "merge " << show(d);
                std::vector<L> w;
                for (const auto &q : d) w.emplace_back(D{q});
                x.merge(std::move(w));
                for (std::size_t q = 0; q < d.size(); ++q) {
                    if (q and g::equals_points(d[q - 1].back(), d[q].front())) m.back().insert(m.back().end(), d[q].begin() + 1, d[q].end());
                    else m.push_back(d[q]);
                }
                break;
            }
            }
        }
        c.trace << " check";
        full(c, x, m, nm);
    }
    template<class L>
    static void both(h::Ctx &c, const char *e, const char *l) {
        using EM = g::eager_multi_rich_line<L, std::vector, std::allocator>;
        using LM = g::lazy_multi_rich_line<L, std::vector, std::allocator>;
        if (c.rng.flip()) ops<L, EM, LM>(c, e); else ops<L, LM, EM>(c, l);
    }
};

int main(int argc, char **argv) {
    using C = T<g::cs_cartesian>;
    using G = T<g::cs_geographic>;
    return h::run(argc, argv, std::vector<h::Group>{
        [](h::Ctx &c) { C::both<C::B>(c, "eager cartesian", "lazy cartesian"); },
        [](h::Ctx &c) { C::both<C::B>(c, "eager cartesian", "lazy cartesian"); },
        [](h::Ctx &c) { C::both<g::lazy_rich_line<C::P, std::vector, std::allocator>>(c, "eager of lazy lines", "lazy of lazy lines"); },
        [](h::Ctx &c) { C::both<g::eager_rich_line<C::P, std::vector, std::allocator>>(c, "eager of eager lines", "lazy of eager lines"); },
        [](h::Ctx &c) { G::both<G::B>(c, "eager geographic", "lazy geographic"); }});
}
