#include "h.hpp"
#include <cassert>
#include <format>
#include <list>
#include <memory>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/vector.hpp>
#include "util/concepts.hpp"
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/container_subview.hpp"
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
using namespace map_matching_2;
namespace g = graph;
struct D { int id = 0; D() = default; D(int i) : id{i} {} template<class A> void serialize(A &a, unsigned) { a & id; } };
struct Conv { int id = 0; Conv() = default; explicit Conv(const D &d) : id{d.id} {} template<class A> void serialize(A &a, unsigned) { a & id; } };
template<template<class, class> class C, class Dir> using G = g::adjacency_list<C, C, Dir, D, D>;
template<class X> using Csr = g::compressed_sparse_row<std::vector, std::vector, g::directional, X, X>;

template<class T> static int idof(const T &t) { return t.id; }

template<class Csr, class Gr>
static void check(h::Ctx &c, const char *kind, const Csr &k, Gr &gr, bool loops) {
    auto vv = gr.vertices_view();
    auto ev = gr.edges_view();
    std::size_t at = 0, v = 0;
    c.require(k.vertices.size() == vv.size() and k.edges.size() == ev.size(), " sizes", "sizes");
    if (k.vertices.size() != vv.size() or k.edges.size() != ev.size()) return;
    for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ++v) {
        c.require(k.get_vertex(v).start == at, " start", std::format("vertex {} starts at {} instead of {}", v, k.get_vertex(v).start, at));
        c.require(idof(k.get_vertex_data(v)) == idof(gr.get_vertex_data(it)), " vertex data", "");
        auto oe = vv[it].out_edges_view();
        auto sub = k.out_edges_view(v);
        std::size_t n = 0;
        for (auto o = oe.begin(); o != oe.end(); o = oe.next(o)) {
            auto e = oe[o];
            const auto &ed = ev[e];
            if (gr.vertex_index(ed.source) != v) continue; // the reverse listing of an undirected edge
            c.require(k.source(at) == v and k.target(at) == gr.vertex_index(ed.target) and idof(k.get_edge_data(at)) == idof(ed.get()), " edge", std::format("edge {}", at));
            c.require(n < sub.size() and idof(sub.at(n).get()) == idof(ed.get()), " view", "");
            ++n; ++at;
        }
        c.require(sub.size() == n and k.out_degree(v) == n and sub.empty() == (n == 0), " degree", std::format("degree of {} is {} instead of {}", v, k.out_degree(v), n));
        c.require(sub.end() - sub.begin() == n, " range", "");
        auto throws = [&](long p) { try { (void) sub.at(p); return false; } catch (const std::invalid_argument &) { return true; } };
        c.require(throws(n) and throws(-(long) n - 1), " view bounds", "");
        if (n) c.require(&sub.front() == &sub.at(0) and &sub.back() == &sub.at(-1) and &sub.at(-(long) n) == &sub.at(0), " view ends", "");
    }
}

template<template<class, class> class C, class Dir>
static void one(h::Ctx &c, const char *kind, bool conv) {
    G<C, Dir> gr;
    std::size_t n = c.rng.below(7), m = n ? c.rng.below(12) : 0;
    std::vector<typename G<C, Dir>::vertex_descriptor> vs;
    std::vector<typename G<C, Dir>::edge_descriptor> es;
    int id = 0;
    for (std::size_t i = 0; i < n; ++i) vs.push_back(gr.add_vertex(++id));
    for (std::size_t i = 0; i < m; ++i) { auto s = c.rng.below(n), t = c.rng.below(n); c.trace << std::format("{}-{} ", s, t); es.push_back(gr.add_edge(vs[s], vs[t], ++id)); }
    if constexpr (requires { gr.remove_edge(es[0]); gr.reindex(); }) {
        if (m and c.rng.below(2)) { auto x = c.rng.below(m); c.trace << std::format("del {} ", x); gr.remove_edge(es[x]); }
        gr.reindex();
    }
    c.trace << std::format("{} {} n {} ", kind, conv, n);
    c.nontrivial = m >= 2;
    auto go = [&]<class X>(X) {
        Csr<X> k;
        k.from_adjacency_list(gr);
        check(c, kind, k, gr, true);
        Csr<X> k2{k}, k3, k4;
        k3 = k; k4 = std::move(k2);
        check(c, kind, k3, gr, true);
        check(c, kind, k4, gr, true);
        std::stringstream ss;
        { boost::archive::text_oarchive o{ss}; o << std::as_const(k); }
        Csr<X> k5;
        { boost::archive::text_iarchive i{ss}; i >> k5; }
        check(c, kind, k5, gr, true);
    };
    if (conv) go(Conv{}); else go(D{});
}

static void views(h::Ctx &c) {
    std::vector<int> v(c.rng.below(6));
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = i;
    std::list<int> l(v.begin(), v.end());
    g::container_view<std::vector<int>> w{v};
    g::container_view<const std::list<int>> wl{l};
    c.trace << std::format("view {}", v.size());
    for (long p = -8; p < 8; ++p) {
        long i = p >= 0 ? p : (long) v.size() + p;
        bool ok = i >= 0 and i < (long) v.size();
        auto get = [&](auto &x) { try { return (long) x.at(p); } catch (const std::invalid_argument &) { return -1L; } };
        c.require(get(w) == (ok ? i : -1) and get(wl) == (ok ? i : -1), "view at", std::format("at({}) of {}", p, v.size()));
    }
}

int main(int argc, char **argv) {
    return h::run(argc, argv, [](h::Ctx &c) {
        bool conv = c.rng.below(2);
        switch (c.rng.below(8)) {
        case 0: one<std::vector, g::directional>(c, "vector directional", conv); break;
        case 1: one<std::vector, g::undirected>(c, "vector undirected", conv); break;
        case 2: one<std::vector, g::bidirectional>(c, "vector bidirectional", conv); break;
        case 3: one<std::list, g::directional>(c, "list directional", conv); break;
        case 4: one<std::list, g::undirected>(c, "list undirected", conv); break;
        case 5: one<std::list, g::bidirectional>(c, "list bidirectional", conv); break;
        default: views(c);
        }
    });
}
