#include "h.hpp"
#include <format>
#include <list>
#include <memory>
#include <map>
#include <limits>
#include <boost/serialization/list.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/unordered/unordered_flat_set.hpp>
#include "util/concepts.hpp"
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
using namespace map_matching_2;
namespace g = graph;

struct VD { int id; };
struct ED { int id; double w; };
template<template<class, class> class C, class Dir> using G = g::adjacency_list<C, C, Dir, VD, ED>;
using Csr = g::compressed_sparse_row<std::vector, std::vector, g::directional, VD, ED>;

struct E { std::size_t s, t; double w; };
struct Model { std::size_t n; std::vector<E> e; };

struct Ev { char k; std::size_t v; };
struct Log : g::visitor {
    std::vector<Ev> ev;
    long stop_at = -1;     // examine_vertex of this vertex
    long stop_after = -1;  // events
    void add(char k, std::size_t v) { ev.push_back({k, v}); if (stop_after >= 0 and (long) ev.size() > stop_after) stop(); if (k == 'x' and (long) v == stop_at) stop(); }
    template<class Gr> void discover_vertex(const Gr &gr, const typename Gr::vertex_descriptor &v) { add('d', gr.vertex_index(v)); }
    template<class Gr> void examine_vertex(const Gr &gr, const typename Gr::vertex_descriptor &v) { add('x', gr.vertex_index(v)); }
    template<class Gr> void examine_edge(const Gr &gr, const typename Gr::edge_descriptor &e) { add('e', gr.get_edge(e).get().id); }
    template<class Gr> void finish_vertex(const Gr &gr, const typename Gr::vertex_descriptor &v) { add('f', gr.vertex_index(v)); }
};

static std::vector<double> shortest(const Model &m, std::size_t s) {
    std::vector<double> d(m.n, std::numeric_limits<double>::infinity());
    std::vector<char> has(m.n, 0);
    d[s] = 0; has[s] = 1;
    for (bool ch = true; ch;) {
        ch = false;
        for (auto &e : m.e) if (has[e.s] and (not has[e.t] or d[e.s] + e.w < d[e.t])) { d[e.t] = d[e.s] + e.w; has[e.t] = 1; ch = true; }
    }
    for (std::size_t i = 0; i < m.n; ++i) if (not has[i]) d[i] = -1; // not reachable
    return d;
}

// reference search: F first in first out, otherwise last in first out
static std::vector<Ev> reference(const Model &m, std::size_t s, bool fifo) {
    std::vector<Ev> ev;
    std::vector<char> seen(m.n, 0);
    std::vector<std::size_t> q{s};
    seen[s] = 1;
    ev.push_back({'d', s});
    while (not q.empty()) {
        std::size_t v = fifo ? q.front() : q.back();
        if (fifo) q.erase(q.begin()); else q.pop_back();
        ev.push_back({'x', v});
        std::vector<std::size_t> out;
        for (std::size_t i = 0; i < m.e.size(); ++i) if (m.e[i].s == v) out.push_back(i);
        if (not fifo) out = std::vector<std::size_t>(out.rbegin(), out.rend());
        for (auto i : out) {
            ev.push_back({'e', i});
            if (not seen[m.e[i].t]) { seen[m.e[i].t] = 1; ev.push_back({'d', m.e[i].t}); q.push_back(m.e[i].t); }
        }
        ev.push_back({'f', v});
    }
    return ev;
}

static std::string show(const std::vector<Ev> &e) { std::string s; for (auto &x : e) s += x.k + std::to_string(x.v) + " "; return s; }

template<class Gr>
void searches(h::Ctx &c, const Gr &gr, const Model &m, const std::vector<typename Gr::vertex_descriptor> &vd, const char *kind) {
    auto key = [&](const std::string &k) { static std::string s; s = std::string(kind) + " " + k; return s.c_str(); };
    std::size_t s = c.rng.below(m.n), t = c.rng.below(m.n);
    auto best = shortest(m, s);
    c.trace << kind << " from " << s << " to " << t << ";";
    std::size_t reach = 0;
    for (auto d : best) reach += d >= 0;
    if (reach > 2) c.nontrivial = true;
    for (bool fifo : {true, false}) {
        Log v;
        bool stopped = c.rng.flip(25);
        if (stopped) v.stop_at = (long) t;
        boost::unordered_flat_set<std::size_t> visited;
        if (fifo) {
            g::queue_type<typename Gr::vertex_descriptor> q;
            g::breadth_first_search(gr, vd[s], visited, q, v);
        } else {
            g::stack_type<typename Gr::vertex_descriptor> q;
            g::depth_first_search(gr, vd[s], visited, q, v);
        }
        auto ref = reference(m, s, fifo);
        if (stopped) { // up to the end of the vertex at which the stop was requested
            for (std::size_t i = 0; i < ref.size(); ++i) if (ref[i].k == 'f' and ref[i].v == t) { ref.resize(i + 1); break; }
        }
        c.require(show(ref) == show(v.ev), key(fifo ? "breadth first order" : "depth first order"), "events ", show(v.ev), " instead of ", show(ref));
        std::size_t disc = 0;
        for (auto &x : ref) if (x.k == 'd') { ++disc; c.require(visited.contains(x.v), key("visited set"), "vertex ", x.v, " missing"); }
        c.require(visited.size() == disc, key("visited set"), visited.size(), " instead of ", disc);
    }
    // distances as exact sums along a path
    auto check = [&](auto &pred, auto &dist, auto &col, const Log &v, bool complete, const char *alg) {
        c.require(pred.contains(s) and pred[s] == s and dist.contains(s) and dist[s] == 0, key(std::string(alg) + " start"), "start");
        std::vector<char> fin(m.n, 0);
        for (auto &x : v.ev) if (x.k == 'f') fin[x.v] = 1;
        for (std::size_t x = 0; x < m.n; ++x) {
            if (complete) c.require(dist.contains(x) == (best[x] >= 0), key(std::string(alg) + " reached vertices"), "vertex ", x);
            c.require(dist.contains(x) == pred.contains(x), key(std::string(alg) + " predecessor known"), "vertex ", x);
            if (not dist.contains(x)) continue;
            c.require(best[x] >= 0, key(std::string(alg) + " reached vertices"), "vertex ", x);
            if (complete or fin[x]) c.require(dist[x] == best[x], key(std::string(alg) + " distance"), "vertex ", x, ": ", dist[x], " instead of ", best[x]);
            c.require(col.contains(x) and (col[x] == g::color::BLACK) == (fin[x] != 0), key(std::string(alg) + " color"), "vertex ", x);
            std::size_t y = x, steps = 0;
            while (y != s) {
                std::size_t p = pred[y];
                bool ok = false;
                for (auto &e : m.e) ok = ok or (e.s == p and e.t == y and dist.contains(p) and dist[p] + e.w == dist[y]);
                c.require(ok, key(std::string(alg) + " predecessors"), "no edge from ", p, " to ", y, " that explains its distance");
                y = p;
                c.require(++steps <= m.n, key(std::string(alg) + " predecessors"), "cycle at ", x);
            }
        }
        for (std::size_t i = 0; i < v.ev.size(); ++i) if (v.ev[i].k == 'x') { // every edge of an examined vertex, in order
            std::vector<std::size_t> out, ref;
            for (std::size_t j = i; j < v.ev.size() and v.ev[j].k != 'f'; ++j) if (v.ev[j].k == 'e') out.push_back(v.ev[j].v);
            for (std::size_t k = 0; k < m.e.size(); ++k) if (m.e[k].s == v.ev[i].v) ref.push_back(k);
            c.require(out == ref, key(std::string(alg) + " examined edges"), "at vertex ", v.ev[i].v);
        }
    };
    auto w = [](const ED &e) { return e.w; };
    using D = typename Gr::vertex_descriptor;
    for (int stop = 0; stop < 2; ++stop) {
        g::predecessors_type pred; g::distances_type<double> dist; g::colors_type col;
        g::priority_queue_type<g::priority_type<double, D>> q;
        Log v;
        if (stop) v.stop_at = (long) t;
        g::dijkstra_shortest_path(gr, vd[s], pred, dist, col, q, v, w);
        check(pred, dist, col, v, not stop, "Dijkstra");
        if (stop) {
            c.require(dist.contains(t) == (best[t] >= 0) and (best[t] < 0 or dist[t] == best[t]), key("Dijkstra goal"), "goal ", t);
            for (std::size_t i = 0; i + 1 < v.ev.size(); ++i) c.require(not (v.ev[i].k == 'f' and v.ev[i].v == t), key("Dijkstra stop"), "goes on after the stop at ", t);
        } else c.require(q.empty(), key("Dijkstra queue"), "left over");
    }
    bool integral = true;
    for (auto &e : m.e) integral = integral and e.w == std::floor(e.w);
    if (integral) {
        Model r = m;
        for (auto &e : r.e) std::swap(e.s, e.t);
        auto to = shortest(r, t);
        double f = c.rng.flip() ? 0.5 : c.rng.flip() ? 1 : 0;
        auto hf = [&](const D &a, const D &b) { c.require(gr.vertex_index(b) == t, key("A* heuristic goal"), "goal"); double d = to[gr.vertex_index(a)]; return d < 0 ? 1e6 : std::floor(d * f); };
        for (int stop = 0; stop < 2; ++stop) {
            g::predecessors_type pred; g::distances_type<double> dist; g::colors_type col;
            g::priority_queue_type<g::priority_type<double, D>> q;
            Log v;
            if (stop) v.stop_at = (long) t;
            g::a_star_shortest_path(gr, vd[s], vd[t], pred, dist, col, q, v, w, hf);
            check(pred, dist, col, v, not stop, "A*");
            if (stop) {
                c.require(dist.contains(t) == (best[t] >= 0) and (best[t] < 0 or dist[t] == best[t]), key("A* goal"), "goal ", t);
                for (std::size_t i = 0; i + 1 < v.ev.size(); ++i) c.require(not (v.ev[i].k == 'f' and v.ev[i].v == t), key("A* stop"), "goes on after the stop at ", t);
            }
        }
    }
}

template<class Gr>
void on(h::Ctx &c, Model m, const char *kind) {
    Gr gr;
    std::vector<typename Gr::vertex_descriptor> vd;
    for (std::size_t i = 0; i < m.n; ++i) vd.push_back(gr.add_vertex(VD{(int) i}));
    for (std::size_t i = 0; i < m.e.size(); ++i) gr.add_edge(vd[m.e[i].s], vd[m.e[i].t], ED{(int) i, m.e[i].w});
    if constexpr (requires { gr.reindex(); }) gr.reindex();
    searches(c, gr, m, vd, kind);
    Csr csr;
    csr.from_adjacency_list(gr);
    std::vector<std::size_t> ids(m.n);
    for (std::size_t i = 0; i < m.n; ++i) ids[i] = i;
    searches(c, csr, m, ids, (std::string(kind) + " to compressed").c_str());
}

int main(int argc, char **argv) {
    return h::run(argc, argv, [](h::Ctx &c) {
        Model m;
        m.n = 1 + c.rng.below(10);
        std::size_t k = c.rng.below(c.rng.flip() ? 12 : 30);
        int wk = (int) c.rng.below(4);
        c.trace << m.n << " vertices;";
        for (std::size_t i = 0; i < k; ++i) {
            double w = wk == 0 ? (double) c.rng.below(4) : wk == 1 ? (double) c.rng.below(20) : wk == 2 ? c.rng.unit() * 10 : c.rng.flip(20) ? 0 : (double) c.rng.below(3) * 0.1;
            m.e.push_back({c.rng.below(m.n), c.rng.below(m.n), w});
            c.trace << m.e.back().s << "-" << m.e.back().t << ":" << w << ";";
        }
        switch (c.rng.below(4)) {
            case 0: on<G<std::vector, g::directional>>(c, m, "directed"); break;
            case 1: on<G<std::vector, g::bidirectional>>(c, m, "bidirectional"); break;
            case 2: on<G<std::list, g::directional>>(c, m, "directed list"); break;
            default: on<G<std::list, g::bidirectional>>(c, m, "bidirectional list");
        }
    });
}
