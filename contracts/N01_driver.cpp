#include <cassert>
#include <vector>
#include <format>
#include <list>
#include <memory>
#include <stdexcept>
#include <sstream>
#include <boost/unordered/unordered_flat_set.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include "types/graph/compressed_sparse_row.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include <boost/container/set.hpp>
#include "geometry/network/network_base.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/io/helper/index_build_helper.hpp"
#define private public  // the visitors are private members of network
#include "geometry/network/network.hpp"
#undef private
using namespace map_matching_2;
using P = geometry::point_type<geometry::cs_cartesian>;
template<class G>
struct Graph {
    using tag_helper_type = io::helper::tag_helper_dummy;
    using graph_type = G;
    G g;
    tag_helper_type t;
    const G &graph() const { return g; }
    G &graph() { return g; }
    const tag_helper_type &tag_helper() const { return t; }
    tag_helper_type &tag_helper() { return t; }
};
using C = graph::network_compressed_sparse_row_type<P>;
using N = geometry::network::network<Graph<C>, io::helper::index_helper_type<P>>;
using Set = boost::unordered_flat_set<std::size_t>;
using Pred = graph::predecessors_type;
using Dist = graph::distances_type<double>;
using Col = graph::colors_type;
// weight of an edge and estimate of a vertex (contracts)
struct Wt { double operator()(const N::edge_data_type &) const; };
struct Heur { double operator()(const std::size_t &v, const std::size_t &goal) const; };
// ghost state: what the visitor has been told, as positions on a clock
struct Ghost {
    boost::unordered_flat_map<std::size_t, std::size_t> found;    // vertex -> time of last discovery
    boost::unordered_flat_map<std::size_t, std::size_t> via;      // vertex -> edge examined last before
    boost::unordered_flat_map<std::size_t, std::size_t> finished;
    std::size_t clock = 0, edge = 0;
};
void tick(Ghost &);                                               // the clock has no end (contract)
template<class B>
struct V : B {
    Ghost &g;
    template<class... A> V(Ghost &g, A &&...a) : B{std::forward<A>(a)...}, g{g} {}
    void discover_vertex(const C &, const std::size_t &v) { g.found[v] = g.clock; g.via[v] = g.edge; tick(g); }
    void examine_edge(const C &c, const std::size_t &e) { g.edge = e; B::examine_edge(c, e); }
    void finish_vertex(const C &c, const std::size_t &v) { g.finished[v] = g.clock; tick(g); B::finish_vertex(c, v); }
};
struct Heap {
    boost::unordered_flat_set<std::pair<double, std::size_t>> items;
    std::pair<double, std::size_t> least;
    bool empty() const;
    const std::pair<double, std::size_t> &top() const;
    void pop();
    void push(const std::pair<double, std::size_t> &x);
};
bool dijkstra_within(const C &c, const std::size_t &start, const Set &goals, double max, double factor, Pred &p, Dist &d, Col &co, Heap &q, Ghost &g, Set &goals_found) {
    Wt w;
    V<N::goals_visitor<Wt>> v{g, max, factor, goals, goals_found, d, co, w};
    graph::dijkstra_shortest_path(c, start, p, d, co, q, v, w);
    return v.stopped();
}
bool a_star_within(const C &c, const std::size_t &start, const std::size_t &goal, double max, double factor, Pred &p, Dist &d, Col &co, Heap &q, Ghost &g) {
    Wt w;
    V<N::goal_visitor<Wt>> v{g, max, factor, goal, d, co, w};
    graph::a_star_shortest_path(c, start, goal, p, d, co, q, v, w, Heur{});
    return v.stopped();
}
std::vector<std::list<std::size_t>> use(const N &n, const Set &goals, Pred &p, Dist &d, Col &c, graph::priority_queue_type<graph::priority_type<double, std::size_t>> &q) {
    auto x = n.a_star_shortest_paths(0, 1, 1.0, 1.0, p, d, c, q);
    n.extract_route(x);
    return n.dijkstra_shortest_paths(0, goals, 1.0, 1.0, p, d, c, q);
}
