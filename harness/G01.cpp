#include "h.hpp"
#include <format>
#include <list>
#include <memory>
#include <map>
#include <boost/serialization/list.hpp>
#include <boost/serialization/vector.hpp>
#include "util/concepts.hpp"
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/adjacency_list.hpp"
using namespace map_matching_2;
namespace g = graph;

static long countdown = -1; // allocations until one fails, -1: never
template<class T>
struct Alloc {
    using value_type = T;
    Alloc() = default;
    template<class U> Alloc(const Alloc<U> &) {}
    T *allocate(std::size_t n) {
        if (countdown >= 0 and countdown-- == 0) throw std::bad_alloc{};
        return std::allocator<T>{}.allocate(n);
    }
    void deallocate(T *p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    template<class U> bool operator==(const Alloc<U> &) const { return true; }
};

template<template<class, class> class C, class Dir>
using G = g::adjacency_list<C, C, Dir, int, int, C, Alloc<void>>;

struct Model {
    struct E { int s, t, d; };
    std::vector<int> v;            // data of the vertices, unique
    std::vector<E> e;              // edges with data of their end points; unique data
    std::vector<int> out(int x, bool und) const {
        std::vector<int> r;
        for (auto &k : e) if (k.s == x or (und and k.t == x)) r.push_back(k.d);
        return r;
    }
    std::vector<int> in(int x) const {
        std::vector<int> r;
        for (auto &k : e) if (k.t == x) r.push_back(k.d);
        return r;
    }
};

template<class Gr>
void compare(h::Ctx &c, const Gr &gr, const Model &m, const char *op, bool indices) {
    const auto vv = gr.vertices_view();
    const auto ev = gr.edges_view();
    auto key = [&](const char *k) { static std::string s; s = std::string(op) + ": " + k; return s; };
    c.require(vv.size() == m.v.size(), key("number of vertices").c_str(), vv.size(), " instead of ", m.v.size());
    c.require(ev.size() == m.e.size(), key("number of edges").c_str(), ev.size(), " instead of ", m.e.size());
    std::size_t i = 0;
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++i) {
        const auto &v = vv[it];
        c.require(v.get() == m.v[i], key("vertex data").c_str(), "vertex ", i);
        if (indices) c.require(gr.vertex_index(it) == i, key("vertex index").c_str(), "vertex ", i, " has index ", gr.vertex_index(it));
        std::vector<int> out;
        const auto ov = gr.out_edges_view(it);
        for (auto o = ov.begin(); o != ov.end(); o = ov.next(o)) out.push_back(gr.get_edge_data(ov[o]));
        const auto exp = m.out(m.v[i], Gr::is_undirected_v);
        c.require(out == exp, key("edges listed at a vertex").c_str(), "vertex ", i, " lists ", out.size(), " edges instead of ", exp.size());
        c.require(gr.out_degree(it) == exp.size(), key("out degree").c_str(), "vertex ", i);
        if constexpr (Gr::is_bidirectional_v) {
            std::vector<int> in;
            const auto iv = gr.in_edges_view(it);
            for (auto o = iv.begin(); o != iv.end(); o = iv.next(o)) in.push_back(gr.get_edge_data(iv[o]));
            c.require(in == m.in(m.v[i]), key("ingoing edges listed at a vertex").c_str(), "vertex ", i, " lists ", in.size(), " edges");
            c.require(gr.in_degree(it) == in.size() and gr.degree(it) == in.size() + exp.size(), key("degree").c_str(), "vertex ", i);
        }
    }
    i = 0;
    for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), ++i) {
        c.require(ev[it].get() == m.e[i].d, key("edge data").c_str(), "edge ", i);
        c.require(gr.get_vertex_data(gr.source(it)) == m.e[i].s and gr.get_vertex_data(gr.target(it)) == m.e[i].t, key("end points of an edge").c_str(), "edge ", i);
        c.require(gr.is_self_loop(it) == (m.e[i].s == m.e[i].t), key("self loop").c_str(), "edge ", i);
        if (indices) c.require(gr.edge_index(it) == i, key("edge index").c_str(), "edge ", i, " has index ", gr.edge_index(it));
    }
}

template<template<class, class> class C, class Dir>
void run(h::Ctx &c) {
    using Gr = G<C, Dir>;
    constexpr bool lst = not util::is_random_access_v<typename Gr::vertex_container>;
    auto &r = c.rng;
    Gr gr;
    Model m;
    int next = 1;
    bool indexed = true;
    countdown = -1;
    auto vat = [&](std::size_t k) { auto vv = gr.vertices_view(); return vv.next(vv.begin(), (std::ptrdiff_t) k); };
    auto eat = [&](std::size_t k) { auto ev = gr.edges_view(); return ev.next(ev.begin(), (std::ptrdiff_t) k); };
    auto drop = [&](auto p) { std::erase_if(m.e, p); indexed = false; };
    const int n = (int) r.in(1, 25);
    for (int step = 0; step < n; ++step) {
        const int kind = (int) r.below(100);
        if (kind < 30 or m.v.empty()) {
            countdown = r.flip(30) ? (long) r.below(3) : -1;
            const int d = next++;
            c.trace << "add_vertex(" << d << ")" << (countdown >= 0 ? " with a failing allocation" : "") << "; ";
            try {
                auto v = gr.add_vertex(int{d});
                countdown = -1;
                m.v.push_back(d);
                c.require(gr.get_vertex_data(v) == d, "add_vertex: descriptor", "");
            } catch (const std::bad_alloc &) { countdown = -1; }
            compare(c, gr, m, "add_vertex", indexed);
        } else if (kind < 70) {
            const std::size_t a = r.below(m.v.size()), b = r.flip(20) ? a : r.below(m.v.size());
            countdown = r.flip(30) ? (long) r.below(5) : -1;
            const int d = next++;
            c.trace << "add_edge(" << m.v[a] << "," << m.v[b] << "," << d << ")" << (countdown >= 0 ? " with a failing allocation" : "") << "; ";
            try {
                auto e = gr.add_edge(vat(a), vat(b), int{d});
                countdown = -1;
                m.e.push_back({m.v[a], m.v[b], d});
                c.nontrivial = true;
                c.require(gr.get_edge_data(e) == d, "add_edge: descriptor", "");
            } catch (const std::bad_alloc &) { countdown = -1; }
            compare(c, gr, m, "add_edge", indexed);
        } else if (kind < 80) {
            // copies (indices of lists need to be fresh)
            if constexpr (lst) { gr.reindex(); indexed = true; c.trace << "reindex; "; compare(c, gr, m, "reindex", true); }
            switch (r.below(5)) {
                case 0: { c.trace << "copy; "; Gr o{gr}; compare(c, o, m, "copy", true); gr = Gr{}; gr = o; compare(c, gr, m, "assignment", true); break; }
                case 1: { c.trace << "move; "; Gr o{std::move(gr)}; compare(c, o, m, "move", true); gr = std::move(o); compare(c, gr, m, "move assignment", true); break; }
                case 2: { c.trace << "copy_from vector kind; "; G<std::vector, Dir> o; o.copy_from(gr); compare(c, o, m, "copy_from", true); Gr p; p.copy_from(o); compare(c, p, m, "copy_from", true); break; }
                case 3: { c.trace << "copy_from list kind; "; G<std::list, Dir> o; std::vector<typename G<std::list, Dir>::vertex_descriptor> map; o.copy_from(gr, map); compare(c, o, m, "copy_from", true);
                    for (std::size_t i = 0; i < m.v.size(); ++i) c.require(map.size() > i and o.get_vertex_data(map[i]) == m.v[i], "copy_from: vertex map", i); break; }
                default: { c.trace << "assign over another; "; Gr o; auto x = o.add_vertex(999); o.add_edge(x, x, 998); o = gr; compare(c, o, m, "assignment", true); gr = gr; compare(c, gr, m, "self assignment", true); }
            }
        } else if constexpr (lst) {
            if (kind < 86 and not m.e.empty()) {
                const std::size_t k = r.below(m.e.size());
                const int d = m.e[k].d, s = m.e[k].s, t = m.e[k].t;
                if (r.flip()) {
                    c.trace << "remove_edge(edge " << d << "); ";
                    gr.remove_edge(eat(k));
                } else {
                    // the descriptor is the one stored at an end point
                    const int at = Gr::is_undirected_v and r.flip() ? t : s;
                    c.trace << "remove_edge(edge " << d << " as listed at " << at << "); ";
                    std::size_t vi = 0;
                    while (m.v[vi] != at) ++vi;
                    for (const auto &o : gr.get_vertex(vat(vi)).out_edges)
                        if (gr.get_edge_data(o) == d) { gr.remove_edge(o); break; }
                }
                drop([&](auto &e) { return e.d == d; });
                compare(c, gr, m, "remove_edge", false);
            } else if (kind < 91 and not m.e.empty()) {
                const std::size_t k = r.below(m.e.size());
                const int s = m.e[k].s, t = m.e[k].t;
                std::size_t a = 0, b = 0;
                while (m.v[a] != s) ++a;
                while (m.v[b] != t) ++b;
                c.trace << "remove_edge(" << s << "," << t << "); ";
                gr.remove_edge(vat(a), vat(b));
                drop([&](auto &e) { return e.s == s and e.t == t; });
                compare(c, gr, m, "remove_edge between vertices", false);
            } else {
                const std::size_t a = r.below(m.v.size());
                const int d = m.v[a];
                bool conn = false, inc = false;
                for (auto &e : m.e) { conn |= e.s == d or (not std::same_as<Dir, g::directional> and e.t == d); inc |= e.t == d; }
                if (kind < 95 or (inc and std::same_as<Dir, g::directional>)) {
                    c.trace << "clear_vertex(" << d << "); ";
                    gr.clear_vertex(vat(a));
                    drop([&](auto &e) { return e.s == d or e.t == d; });
                    compare(c, gr, m, "clear_vertex", false);
                } else {
                    c.trace << "remove_vertex(" << d << "); ";
                    bool thrown = false;
                    try { gr.remove_vertex(vat(a)); } catch (const std::runtime_error &) { thrown = true; }
                    c.require(thrown == conn, "remove_vertex: refused exactly when connected", d, thrown ? " refused" : " removed");
                    if (not thrown) { m.v.erase(m.v.begin() + (std::ptrdiff_t) a); indexed = false; }
                    compare(c, gr, m, "remove_vertex", false);
                }
            }
            if (not indexed) { gr.reindex(); indexed = true; compare(c, gr, m, "reindex", true); }
        }
    }
}

static void one(h::Ctx &c) {
    switch (c.index % 6) {
        case 0: c.trace << "list, directional: "; return run<std::list, g::directional>(c);
        case 1: c.trace << "list, undirected: "; return run<std::list, g::undirected>(c);
        case 2: c.trace << "list, bidirectional: "; return run<std::list, g::bidirectional>(c);
        case 3: c.trace << "vector, directional: "; return run<std::vector, g::directional>(c);
        case 4: c.trace << "vector, undirected: "; return run<std::vector, g::undirected>(c);
        default: c.trace << "vector, bidirectional: "; return run<std::vector, g::bidirectional>(c);
    }
}

int main(int argc, char **argv) {
    return h::run(argc, argv, std::vector<h::Group>{one});
}
