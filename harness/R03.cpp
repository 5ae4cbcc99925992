#include "h.hpp"
#include "types/geometry/point.hpp"
#include "types/geometry/rich_type/rich_line_variant.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include <deque>
using namespace map_matching_2;
namespace g = geometry;
namespace gn = geometry::network;

using P = g::point_type<g::cs_cartesian>;
using V = g::rich_line_variant<g::cs_cartesian>;
using B = std::variant_alternative_t<0, V>;
using E = std::variant_alternative_t<2, V>;
using L = std::variant_alternative_t<4, V>;
using D = std::vector<P>;
using Ref = gn::route<V>::rich_line_reference_variant_type;
static constexpr double inf = std::numeric_limits<double>::infinity();

static bool ok(double x) { return not std::isnan(x) and not std::isinf(x); }
static bool near(double a, double b) { return h::same(a, b) || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static bool eq(const P &a, const P &b) { return g::equals_points(a, b); }
// a route: lines in order, each either owned by the route or somebody else's
struct Item { D pts; const void *ext = nullptr; };
struct M { std::vector<Item> l; bool invalid = false; };

static std::string show(const D &d) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (const auto &p : d) o << "(" << p.get<0>() << "," << p.get<1>() << ")";
    o << "]";
    return o.str();
}
static std::string show(const M &m) {
    if (m.invalid) return "invalid";
    std::string s;
    for (const auto &i : m.l) s += (i.ext ? "ext" : "") + show(i.pts);
    return s.empty() ? "no lines" : s;
}
struct Spec { double len = inf, azi = inf, dir = inf, adir = inf; bool conn = true; };
struct Seg { bool has; double len, azi; };
static std::vector<Seg> segs(const D &d) {
    std::vector<Seg> s;
    for (std::size_t i = 0; i + 1 < d.size(); ++i) {
        bool e = eq(d[i], d[i + 1]);
        s.push_back({not e, e ? 0 : (double) g::point_distance(d[i], d[i + 1]), e ? 0 : (double) g::azimuth_deg(d[i], d[i + 1])});
    }
    return s;
}
static Spec spec(const M &m) {
    Spec r;
    bool hl = false, hd = false;
    double len = 0, dir = 0, ad = 0;
    auto turn = [&](double a, double b) { double d = g::direction_deg(a, b); dir += d; ad += std::fabs(d); hd = true; };
    for (std::size_t q = 0; q < m.l.size(); ++q) {
        auto s = segs(m.l[q].pts);
        for (const auto &x : s) if (x.has) { len += x.len; hl = true; }
        for (std::size_t i = 0; i + 1 < s.size(); ++i) if (s[i].has and s[i + 1].has) turn(s[i].azi, s[i + 1].azi);
        if (q + 1 < m.l.size()) {
            const D &a = m.l[q].pts, &b = m.l[q + 1].pts;
            auto t = segs(b);
            if (not a.empty() and not b.empty()) {
                if (not eq(a.back(), b.front())) r.conn = false;
                else if (not s.empty() and s.back().has and not t.empty() and t.front().has) turn(s.back().azi, t.front().azi);
            }
        }
    }
    if (hl) r.len = len;
    if (hd) { r.dir = dir; r.adir = ad; }
    const P *f = nullptr, *b = nullptr;
    for (const auto &i : m.l) if (not i.pts.empty()) { if (not f) f = &i.pts.front(); b = &i.pts.back(); }
    if (f and not eq(*f, *b)) r.azi = g::azimuth_deg(*f, *b);
    return r;
}
static bool mergeable(const M &m) {
    if (m.invalid) return false;
    for (const auto &i : m.l) for (const auto &s : segs(i.pts)) if (s.has) return true;
    return false;
}
static D points(const Ref &r) {
    return std::visit([](auto &&x) { const auto &l = x.get().line(); return D(l.begin(), l.end()); }, r);
}
static const void *address(const Ref &r) {
    return std::visit([](auto &&x) -> const void * { return &x.get(); }, r);
}

template<class R> constexpr bool is_plain = std::is_same_v<R, gn::route<V>>;
template<class R> constexpr bool is_eager = std::is_same_v<R, gn::eager_route<V>>;

struct Pool { std::deque<V> ext; };

static P point(h::Rng &r) {
    if (r.flip(80)) return P{(double) r.in(0, 3), (double) r.in(0, 2)};
    return P{r.real(-50, 50), r.real(-50, 50)};
}
static D line(h::Ctx &c, const D *before, bool full) {
    D d;
    std::size_t n = full ? 2 + c.rng.below(3) : c.rng.flip(15) ? c.rng.below(2) : 2 + c.rng.below(3);
    while (n-- > 0) d.push_back(c.rng.flip(15) and not d.empty() ? d.back() : point(c.rng));
    if (before and not before->empty() and not d.empty() and c.rng.flip(70)) d.front() = before->back();
    return d;
}
static V variant(h::Ctx &c, const D &d) {
    switch (c.rng.below(3)) {
    case 0: return V{std::in_place_type<B>, typename B::line_type(d.begin(), d.end())};
    case 1: return V{std::in_place_type<E>, typename E::line_type(d.begin(), d.end())};
    default: return V{std::in_place_type<L>, typename L::line_type(d.begin(), d.end())};
    }
}
static Ref refer(const V &v) { return std::visit([](auto &&x) -> Ref { return std::cref(x); }, v); }

template<class R>
static void full(h::Ctx &c, const R &x, const M &m, const char *who);

// a new route and what it should be; first, when given, is where it starts
template<class R>
static R make(h::Ctx &c, Pool &p, M &m, const D *first = nullptr, bool fullLines = false, std::size_t least = 0) {
    m = M{};
    if (least == 0 and c.rng.flip(5)) { m.invalid = true; return R{true}; }
    std::size_t n = least + c.rng.below(4), mode = c.rng.below(3);
    std::list<V> own;
    std::vector<Ref> refs;
    const D *b = first;
    std::vector<std::pair<D, bool>> ls;
    ls.reserve(n);
    for (std::size_t i = 0; i < n; ++i) { ls.emplace_back(line(c, b, fullLines), mode == 0 or (mode == 2 and c.rng.flip())); b = &ls.back().first; }
    for (auto &[d, o] : ls) {
        if (o) { own.push_back(variant(c, d)); refs.push_back(refer(own.back())); m.l.push_back({d}); }
        else { p.ext.push_back(variant(c, d)); refs.push_back(refer(p.ext.back())); m.l.push_back({d, address(refs.back())}); }
    }
    if (mode == 0) return R{std::move(own)};
    if (mode == 1) return R{std::move(refs)};
    return R{std::move(own), std::move(refs)};
}

template<class R, class F>
static void one(h::Ctx &c, const char *what, F &&f, double want) {
    if (is_plain<R> and not ok(want)) {
        bool thrown = false;
        try { (void) f(); } catch (const std::out_of_range &) { throw; } catch (const std::exception &) { thrown = true; }
        c.require(thrown, what, "a plain route returns a ", what, " it does not have");
        return;
    }
    double got = f();
    c.require(near(got, want), what, what, " is ", got, ", recomputed from the lines ", want);
}
template<class R>
static void attr(h::Ctx &c, const R &x, const M &m, const Spec &s, int k) {
    if (is_eager<R> and m.l.empty()) return; // an eager route computes when it is made from lines
    switch (k) {
    case 0: one<R>(c, "length", [&] { return x.length(); }, s.len); break;
    case 1: c.require(x.has_length() == ok(s.len), "has_length", "has_length is ", x.has_length()); break;
    case 2: one<R>(c, "azimuth", [&] { return x.azimuth(); }, s.azi); break;
    case 3: c.require(x.has_azimuth() == ok(s.azi), "has_azimuth", "has_azimuth is ", x.has_azimuth()); break;
    case 4: one<R>(c, "directions", [&] { return x.directions(); }, s.dir); break;
    case 5: one<R>(c, "absolute_directions", [&] { return x.absolute_directions(); }, s.adir); break;
    case 6: c.require(x.has_directions() == ok(s.dir), "has_directions", "has_directions is ", x.has_directions()); break;
    case 7: c.require(x.is_connected() == s.conn, "is_connected", "is_connected is ", x.is_connected()); break;
    case 8: c.require(x.mergeable() == mergeable(m), "mergeable", "mergeable is ", x.mergeable()); break;
    }
}
template<class R>
static void full(h::Ctx &c, const R &x, const M &m, const char *who) {
    c.require(x.is_invalid() == m.invalid, "invalid", who, " is ", x.is_invalid() ? "invalid" : "valid", " for ", show(m));
    M got;
    got.invalid = m.invalid;
    for (const auto &r : x.rich_lines()) got.l.push_back({points(r)});
    bool same = got.l.size() == m.l.size();
    for (std::size_t i = 0; same and i < m.l.size(); ++i) same = show(got.l[i].pts) == show(m.l[i].pts);
    c.require(same and x.size() == m.l.size() and x.empty() == m.l.empty(), "lines", who, " has ", show(got), " instead of ", show(m));
    for (std::size_t i = 0; i < m.l.size(); ++i)
        if (m.l[i].ext) c.require(address(x.rich_lines()[i]) == m.l[i].ext, "reference", who, " no longer refers to the line it was given at position ", i, " of ", show(m));
    auto s = spec(m);
    try {
        int off = (int) c.rng.below(9);
        for (int q = 0; q < 9; ++q) attr(c, x, m, s, (q + off) % 9);
        if (not m.invalid) {
            // the lines put together
            D want;
            std::vector<D> multi;
            for (const auto &i : m.l) if (not i.pts.empty()) {
                bool joins = not want.empty() and eq(want.back(), i.pts.front());
                if (joins) multi.back().insert(multi.back().end(), i.pts.begin() + 1, i.pts.end());
                else multi.push_back(i.pts);
                want.insert(want.end(), i.pts.begin() + joins, i.pts.end());
            }
            auto rl = x.template get_rich_line<L>();
            D have(rl.line().begin(), rl.line().end());
            c.require(show(have) == show(want), "get_rich_line", "get_rich_line gives ", show(have), " instead of ", show(want));
            if (not multi.empty()) {
                auto ml = x.template get_multi_rich_line<g::lazy_multi_rich_line<L, std::vector, std::allocator>>();
                bool sm = ml.size() == multi.size();
                for (std::size_t i = 0; sm and i < multi.size(); ++i) sm = show(D(ml[i].line().begin(), ml[i].line().end())) == show(multi[i]);
                c.require(sm, "get_multi_rich_line", "get_multi_rich_line differs");
                if (ok(s.len)) c.require(near(ml.length(), s.len), "multi length", "the multi line is ", ml.length(), " long instead of ", s.len);
            }
        }
    } catch (const h::Fail &f) { throw h::Fail(f.key, std::string(who) + ": " + f.what() + " for " + show(m)); }
    catch (const std::exception &e) { throw h::Fail("throws", std::string(who) + " throws " + e.what() + " for " + show(m)); }
}
template<class R>
static void poke(h::Ctx &c, const R &x, const M &m) {
    auto s = spec(m);
    for (std::size_t q = c.rng.below(4); q-- > 0;) { int k = (int) c.rng.below(9); c.trace << " get" << k; attr(c, x, m, s, k); }
}
static M merged(const std::vector<M> &ms, bool connect, bool except, bool &thrown) {
    M r;
    bool all = true;
    for (const auto &m : ms) all = all and m.invalid;
    if (all) { r.invalid = true; return r; }
    for (const auto &m : ms) if (mergeable(m)) {
        if (not r.l.empty() and not r.l.back().pts.empty() and not m.l.front().pts.empty() and not eq(r.l.back().pts.back(), m.l.front().pts.front())) {
            if (connect) r.l.push_back({D{r.l.back().pts.back(), m.l.front().pts.front()}});
            else if (except) thrown = true;
        }
        r.l.insert(r.l.end(), m.l.begin(), m.l.end());
    }
    return r;
}
static bool reverses(const D &a, const D &b) {
    auto s = segs(a), t = segs(b);
    if (s.empty() or t.empty() or not s.back().has or not t.front().has) return false;
    return std::fabs(g::direction_deg(s.back().azi, t.front().azi)) / 180.0 > 0.99;
}
static void joined(M &a, M &b, bool retain) {
    if (a.invalid or b.invalid or a.l.empty() or b.l.empty()) return;
    D x = a.l.back().pts, y = b.l.front().pts;
    if (x.size() < 2 or y.size() < 2 or (retain and reverses(x, y))) return;
    x.back() = y[1];
    y.erase(y.begin());
    a.l.back() = {x};
    if (y.size() < 2) b.l.erase(b.l.begin()); else b.l.front() = {y};
}
static M sub(const M &m, std::size_t f, std::size_t t) {
    M r;
    r.l.assign(m.l.begin() + f, m.l.begin() + t);
    return r;
}
// from a position of one line up to before a position of another one: parts without extent are left out
static M sub(const M &m, std::size_t f, std::size_t fp, std::size_t t, std::size_t tp) {
    std::vector<M> parts;
    auto part = [&](std::size_t i, std::size_t a, std::size_t b) { M r; r.l.push_back({D(m.l[i].pts.begin() + a, m.l[i].pts.begin() + b)}); parts.push_back(r); };
    if (f + 1 == t and fp > 0 and tp < m.l[f].pts.size()) part(f, fp, tp);
    else {
        if (fp > 0) { part(f, fp, m.l[f].pts.size()); ++f; }
        bool last = tp < m.l[t - 1].pts.size();
        parts.push_back(sub(m, f, last ? t - 1 : t));
        if (last) part(t - 1, 0, tp);
    }
    bool x = false;
    return merged(parts, false, false, x);
}
static D flat(const M &m) {
    D d;
    for (const auto &i : m.l) for (const auto &p : i.pts) if (d.empty() or not eq(d.back(), p)) d.push_back(p);
    return d;
}

template<class R>
static void ops(h::Ctx &c, const char *nm) {
    Pool pool;
    c.trace << nm << ": ";
    M m;
    R x = make<R>(c, pool, m);
    c.trace << show(m);
    c.nontrivial = m.l.size() >= 2;
    for (std::size_t o = 1 + c.rng.below(5); o-- > 0;) {
        if (c.rng.flip(60)) poke(c, x, m);
        if (c.rng.flip(30)) { c.trace << " check"; full(c, x, m, nm); }
        c.trace << "\n ";
        switch (c.rng.below(11)) {
        case 0: { c.trace << "copy"; auto y = std::make_unique<R>(x); full(c, R(*y), m, "copy"); x = R{true}; full(c, *y, m, "copy"); x = *y; break; }
        case 1: { c.trace << "move"; auto y = std::make_unique<R>(std::move(x)); full(c, *y, m, "moved"); x = std::move(*y); break; }
        case 2: { M k; auto y = std::make_unique<R>(make<R>(c, pool, k)); c.trace << "assign copy " << show(k); poke(c, *y, k); x = *y; full(c, *y, k, "source"); y.reset(); m = k; break; }
        case 3: { M k; auto y = std::make_unique<R>(make<R>(c, pool, k)); c.trace << "assign move " << show(k); poke(c, *y, k); x = std::move(*y); y.reset(); m = k; break; }
        case 4: { // part of the lines
            if (m.l.empty()) break;
            std::size_t f = c.rng.below(m.l.size()), t = f + c.rng.below(m.l.size() - f + 1);
            c.trace << "sub " << f << " " << t;
            auto y = std::make_unique<R>(x.sub_route(f, t));
            full(c, x, m, "source");
            x = R{true};
            M k = sub(m, f, t);
            full(c, *y, k, "sub_route");
            x = *y;
            m = k;
            break;
        }
        case 5: { // from one position to another
            if (m.l.empty()) break;
            std::size_t f = c.rng.below(m.l.size()), t = f + 1 + c.rng.below(m.l.size() - f);
            std::size_t a = m.l[f].pts.size(), b = m.l[t - 1].pts.size();
            if (a == 0 or b == 0) break;
            std::size_t fp = c.rng.flip(40) ? 0 : c.rng.below(a), tp = c.rng.flip(40) ? b : c.rng.below(b + 1);
            if (f + 1 == t and tp < fp) break;
            c.trace << "sub " << f << "," << fp << " " << t << "," << tp;
            std::unique_ptr<R> y;
            try { y = std::make_unique<R>(x.template sub_route<L>(f, fp, t, tp)); }
            catch (const std::exception &e) { throw h::Fail("sub_route", std::string("sub_route throws ") + e.what() + " for " + show(m)); }
            full(c, x, m, "source");
            x = R{true};
            M k = sub(m, f, fp, t, tp);
            full(c, *y, k, "sub_route");
            x = *y;
            m = k;
            break;
        }
        case 6: { // positions out of range
            std::size_t f = c.rng.below(m.l.size() + 2), t = c.rng.below(m.l.size() + 3), fp = c.rng.below(6), tp = c.rng.below(6);
            c.trace << "range " << f << "," << fp << " " << t << "," << tp;
            bool r2 = f <= t and f < m.l.size() and t <= m.l.size();
            bool thrown = false;
            try { (void) x.sub_route(f, t); } catch (const std::out_of_range &) { thrown = true; }
            c.require(thrown == not r2, "range", "sub_route(", f, ",", t, ") ", thrown ? "throws" : "does not throw", " for ", show(m));
            bool r4 = f <= t and f < m.l.size() and t <= m.l.size() and t > f and fp < m.l[f].pts.size() and not m.l[t - 1].pts.empty() and tp <= m.l[t - 1].pts.size() and (f + 1 < t or fp <= tp);
            if (r4 or (f == t and f < m.l.size() and fp < m.l[f].pts.size())) break;
            thrown = false;
            try { (void) x.template sub_route<L>(f, fp, t, tp); } catch (const std::out_of_range &) { thrown = true; }
            c.require(thrown, "range", "sub_route(", f, ",", fp, ",", t, ",", tp, ") does not throw for ", show(m));
            break;
        }
        case 7: case 8: { // several routes put together
            std::vector<R> rs;
            std::vector<M> ms;
            ms.push_back(m);
            rs.push_back(std::move(x));
            for (std::size_t q = 1 + c.rng.below(2); q-- > 0;) { M k; const D *b = ms.back().l.empty() ? nullptr : &ms.back().l.back().pts; rs.push_back(make<R>(c, pool, k, b)); poke(c, rs.back(), k); ms.push_back(k); }
            bool connect = c.rng.flip(40), except = c.rng.flip(30), want = false, thrown = false;
            c.trace << "merge" << (connect ? " connected" : "") << (except ? " strict" : "");
            for (const auto &k : ms) c.trace << " and " << show(k);
            M r = merged(ms, connect, except, want);
            x = R{true};
            try { x = R::template merge<L>(std::move(rs), connect, except); } catch (const gn::route_merge_exception &) { thrown = true; }
            c.require(thrown == want, "gap", "merge ", thrown ? "throws" : "does not throw");
            m = r;
            if (thrown) { m = M{}; m.invalid = true; x = R{true}; }
            else full(c, x, m, "merge");
            break;
        }
        case 9: { // join: leave out the point between
            M k;
            const D *b = m.l.empty() ? nullptr : &m.l.back().pts;
            R y = make<R>(c, pool, k, b);
            poke(c, y, k);
            bool retain = c.rng.flip();
            c.trace << "join" << (retain ? " retaining reversals " : " ") << show(k);
            R::template join<L>(x, y, retain);
            joined(m, k, retain);
            full(c, y, k, "joined back");
            full(c, x, m, "joined front");
            if (c.rng.flip(30)) { x = std::move(y); m = k; }
            break;
        }
        case 10: { // trim away a way there and back
            bool fit = not m.invalid and not m.l.empty();
            for (const auto &i : m.l) fit = fit and not i.pts.empty();
            if (not fit or flat(m).size() < 2 or not spec(m).conn) break;
            M k;
            R y = make<R>(c, pool, k, &m.l.back().pts, true, 1);
            if (c.rng.flip(60)) { // the way back
                D d;
                for (std::size_t i = m.l.size(); i-- > 0;) d.insert(d.end(), m.l[i].pts.rbegin(), m.l[i].pts.rend());
                d.resize(1 + c.rng.below(d.size()), d[0]);
                for (std::size_t q = c.rng.below(3) + (d.size() < 2); q-- > 0;) d.push_back(point(c.rng));
                k = M{};
                pool.ext.push_back(variant(c, d));
                std::vector<Ref> rf{refer(pool.ext.back())};
                k.l.push_back({d, address(rf[0])});
                y = R{std::move(rf)};
            }
            if (not spec(k).conn) break;
            c.trace << "trim " << show(k);
            D a = flat(m), b = flat(k);
            auto z = std::make_unique<R>(x.template trim_merge<L>(y));
            x = R{true};
            y = R{true};
            if (not eq(a.back(), b.front())) { c.require(z->is_invalid(), "trim", "routes that do not meet are trimmed"); m = M{}; m.invalid = true; break; }
            if (b.size() < 2) { m = M{}; m.invalid = true; break; }
            std::size_t n = 0;
            while (n < a.size() and n < b.size() and eq(a[a.size() - 1 - n], b[n])) ++n;
            D u(a.begin(), a.end() - (n - 1)), v(b.begin() + (n - 1), b.end());
            D w;
            bool rev = u.size() >= 2 and v.size() >= 2 and std::fabs(g::direction_deg(g::azimuth_deg(u[u.size() - 2], u.back()), g::azimuth_deg(v[0], v[1]))) / 180.0 > 0.99;
            M got;
            for (const auto &r : z->rich_lines()) got.l.push_back({points(r)});
            auto put = [&](const D &d, std::size_t f, std::size_t t) { for (std::size_t i = f; i < t; ++i) if (w.empty() or not eq(w.back(), d[i])) w.push_back(d[i]); };
            if (u.size() >= 2) put(u, 0, u.size());
            if (v.size() >= 2) put(v, 0, v.size());
            D w1 = w;
            w.clear();
            if (rev) { put(u, 0, u.size() - 1); put(v, 1, v.size()); }
            D have = flat(got);
            // the turning point is left out only where both lines touch it directly
            c.require(show(have) == show(w1) or (rev and show(have) == show(w)), "trim", "trim_merge gives ", show(have), " instead of ", show(rev ? w : w1), " for ", show(m));
            if (not z->is_invalid()) { full(c, *z, got, "trim_merge"); }
            x = std::move(*z);
            m = got;
            m.invalid = x.is_invalid();
            break;
        }
        }
    }
    c.trace << " check";
    full(c, x, m, nm);
}

int main(int argc, char **argv) {
    return h::run(argc, argv, std::vector<h::Group>{
        [](h::Ctx &c) { ops<gn::lazy_route<V>>(c, "lazy route"); },
        [](h::Ctx &c) { ops<gn::lazy_route<V>>(c, "lazy route"); },
        [](h::Ctx &c) { ops<gn::eager_route<V>>(c, "eager route"); },
        [](h::Ctx &c) { ops<gn::route<V>>(c, "route"); }});
}
