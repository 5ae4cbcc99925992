#include "h.hpp"
#include <cassert>
#include <format>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include "types/graph/compressed_sparse_row.hpp"
#include "types/graph/adjacency_list.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "geometry/network/network.hpp"
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
template<class G>
struct Graph {
    using tag_helper_type = io::helper::tag_helper_dummy;
    using graph_type = G;
    G g;
    tag_helper_type t;
    const G &graph() const { return g; }
    G &graph() { return g; }
    const tag_helper_type &tag_helper() const { return t; }
    tag_helper_type &tag_helper() { return t; }
};
using C = graph::network_compressed_sparse_row_type<P>;
using N = geometry::network::network<Graph<C>, io::helper::index_helper_type<P>>;
using L = N::rich_line_type;
using Nodes = std::vector<std::pair<double, double>>;
struct E { std::size_t s, t; double mid_x, mid_y, len; bool bent; };

int main(int argc, char **argv) {
    return h::run(argc, argv, [](h::Ctx &c) {
        using line = N::line_type;
        std::size_t n = 1 + c.rng.below(8), m = c.rng.below(20);
        bool grid = c.rng.flip();
        std::vector<P> pts;
        c.trace << "nodes";
        for (std::size_t i = 0; i < n; ++i) {
            double x = grid ? c.rng.below(4) : c.rng.real(0, 10), y = grid ? c.rng.below(4) : c.rng.real(0, 10);
            pts.emplace_back(x, y);
            c.trace << " (" << x << " " << y << ")";
        }
        std::vector<E> es;
        for (std::size_t i = 0; i < m; ++i) {
            E e{c.rng.below(n), c.rng.below(n), (double) c.rng.below(5), (double) c.rng.below(5), 0, c.rng.flip(30)};
            es.push_back(e);
        }
        std::stable_sort(es.begin(), es.end(), [](auto &a, auto &b) { return a.s < b.s; });
        Graph<C> gh;
        std::size_t at = 0;
        for (std::size_t v = 0; v < n; ++v) {
            gh.g.vertices.emplace_back(C::vertex_type{at, geometry::network::node_type<P>{v, pts[v]}});
            for (; at < m and es[at].s == v; ++at) {
                auto &e = es[at];
                line l;
                l.emplace_back(pts[e.s]);
                if (e.bent) l.emplace_back(P{e.mid_x, e.mid_y});
                l.emplace_back(pts[e.t]);
                auto d = [](const P &a, const P &b) { return std::hypot(a.get<0>() - b.get<0>(), a.get<1>() - b.get<1>()); };
                e.len = e.bent ? d(l[0], l[1]) + d(l[1], l[2]) : d(l[0], l[1]);
                gh.g.edges.emplace_back(C::edge_type{e.s, e.t, N::edge_data_type{at, L{l}}});
                c.trace << std::format(" {}-{}{}", e.s, e.t, e.bent ? std::format("({} {})", e.mid_x, e.mid_y) : "");
            }
        }
        N net{std::move(gh), {}};
        graph::predecessors_type pred;
        graph::distances_type<double> dist;
        graph::colors_type colors;
        graph::priority_queue_type<graph::priority_type<double, std::size_t>> queue;
        auto near = [](double a, double b) { return a == b or std::fabs(a - b) < 1e-9 * (1 + std::fabs(a)); };
        for (int round = 0; round < 3; ++round) {
            std::size_t s = c.rng.below(n);
            double factor = c.rng.flip(25) ? -1.0 : 1.0 + 0.5 * c.rng.below(4), max = grid ? c.rng.below(8) : c.rng.real(0, 8);
            double lim = factor < 0 ? INFINITY : factor * max;
            c.trace << std::format("; from {} max {} factor {}", s, max, factor);
            std::vector<double> d(n, INFINITY);
            d[s] = 0;
            for (std::size_t k = 0; k <= n; ++k) for (auto &e : es) if (d[e.s] + e.len < d[e.t]) d[e.t] = d[e.s] + e.len;
            auto within = [&](std::size_t v) { return d[v] <= lim - 1e-9 * (1 + std::fabs(lim)) or (v == s); };
            auto beyond = [&](std::size_t v) { return v != s and (d[v] == INFINITY or d[v] > lim + 1e-9 * (1 + std::fabs(lim))); };
            auto check = [&](const char *what, std::list<std::size_t> path, std::size_t goal) {
                auto key = [&](const char *k) { static std::string r; r = std::string(what) + ": " + k; return r; };
                c.require(not path.empty() and path.front() == s and path.back() == goal, key("ends of the path").c_str(), "to ", goal);
                double sum = 0;
                for (auto it = path.begin(); std::next(it) != path.end(); ++it) {
                    double best = INFINITY;
                    for (auto &e : es) if (e.s == *it and e.t == *std::next(it)) best = std::min(best, e.len);
                    c.require(best < INFINITY, key("edges of the path").c_str(), *it, "-", *std::next(it));
                    sum += best;
                }
                c.require(near(sum, d[goal]), key("length of the path").c_str(), sum, " instead of ", d[goal], " to ", goal);
                auto r = net.extract_route(path);
                if (path.size() == 1) c.require(not r.is_invalid(), key("route of staying").c_str(), "");
                else c.require(not r.is_invalid() and (sum == 0 ? not r.has_length() or r.length() == 0 : near(r.length(), sum)) and r.rich_lines().size() == path.size() - 1, key("route of the path").c_str(), "length ", r.length(), " instead of ", sum);
            };
            auto clean = [&](const char *what) {
                c.require(pred.empty() and dist.empty() and colors.empty() and queue.empty(), what, "");
            };
            boost::unordered_flat_set<std::size_t> goals;
            for (std::size_t v = 0; v < n; ++v) if (c.rng.flip()) goals.insert(v);
            goals.insert(c.rng.below(n));
            auto paths = net.dijkstra_shortest_paths(s, goals, max, factor, pred, dist, colors, queue);
            clean("Dijkstra leaves something behind");
            std::set<std::size_t> got;
            for (auto &p : paths) {
                c.require(not p.empty() and goals.contains(p.back()) and got.insert(p.back()).second, "Dijkstra: goals of the paths", "");
                c.require(not beyond(p.back()), "Dijkstra: beyond the maximum", p.back());
                check("Dijkstra", p, p.back());
            }
            for (auto g : goals) c.require(got.contains(g) or not within(g), "Dijkstra: goal within the maximum not found", "goal ", g, " at ", d[g], " maximum ", lim);
            if (paths.size() >= 2) c.nontrivial = true;
            std::size_t goal = c.rng.below(n);
            c.trace << " A* to " << goal;
            auto p = net.a_star_shortest_paths(s, goal, max, factor, pred, dist, colors, queue);
            clean("A* leaves something behind");
            if (beyond(goal)) c.require(p.empty(), "A*: a path that is none", "to ", goal);
            else if (within(goal)) check("A*", p, goal);
            else if (not p.empty()) check("A*", p, goal);
            if (p.empty()) c.require(net.extract_route(p).is_invalid(), "no path is an invalid route", "");
        }
    });
}
