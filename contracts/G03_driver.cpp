#include <cassert>
#include <vector>
#include <format>
#include <list>
#include <memory>
#include <stdexcept>
#include <boost/unordered/unordered_flat_set.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/serialization/vector.hpp>
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
using namespace map_matching_2;
using A = graph::adjacency_list<std::vector, std::vector, graph::directional, int, double, std::vector>;
using B = graph::adjacency_list<std::vector, std::vector, graph::bidirectional, int, double, std::vector>;
using C = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, int, double>;
using AI = graph::adjacency_list<std::vector, std::vector, graph::directional, int, long, std::vector>;
using BI = graph::adjacency_list<std::vector, std::vector, graph::bidirectional, int, long, std::vector>;
using CI = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, int, long>;
// ghost state: what the visitor has been told, as positions on a clock
struct V {
    boost::unordered_flat_map<std::size_t, std::size_t> found;    // vertex -> time of last discovery
    boost::unordered_flat_map<std::size_t, std::size_t> via;      // vertex -> edge examined last before
    boost::unordered_flat_map<std::size_t, std::size_t> examined; // vertex -> time
    boost::unordered_flat_map<std::size_t, std::size_t> finished;
    std::size_t clock = 0, edge = 0;
    bool stopped() const;
    void tick();                                                  // the clock has no end (contract)
    template<class G> void discover_vertex(const G &g, const std::size_t &v) { found[v] = clock; via[v] = edge; tick(); }
    template<class G> void examine_vertex(const G &g, const std::size_t &v) { examined[v] = clock; tick(); }
    template<class G> void examine_edge(const G &g, const std::size_t &e) { edge = e; }
    template<class G> void finish_vertex(const G &g, const std::size_t &v) { finished[v] = clock; tick(); }
};
// first in first out and last in first out as sequences
struct Fifo {
    std::vector<std::size_t> items;
    std::size_t head = 0;
    boost::unordered_flat_map<std::size_t, std::size_t> at;  // ghost: where a vertex was put
    bool empty() const { return head == items.size(); }
    const std::size_t &front() const { return items[head]; }
    void pop() { ++head; }
    void push(const std::size_t &v) { at[v] = items.size(); items.push_back(v); }
};
struct Lifo {
    std::vector<std::size_t> items;
    boost::unordered_flat_map<std::size_t, std::size_t> at;
    bool empty() const { return items.empty(); }
    const std::size_t &top() const { return items.back(); }
    void pop() { items.pop_back(); }
    void push(const std::size_t &v) { at[v] = items.size(); items.push_back(v); }
};
// a priority queue as a set of entries, top and pop take some smallest one (contracts)
template<class W>
struct Heap {
    boost::unordered_flat_set<std::pair<W, std::size_t>> items;
    std::pair<W, std::size_t> least;
    bool empty() const;
    const std::pair<W, std::size_t> &top() const;
    void pop();
    void push(const std::pair<W, std::size_t> &x);
};
using Set = boost::unordered_flat_set<std::size_t>;
using Map = boost::unordered_flat_map<std::size_t, std::size_t>;
using DistI = boost::unordered_flat_map<std::size_t, long>;
using Col = boost::unordered_flat_map<std::size_t, graph::color>;
struct WtI { long operator()(const long &d) const { return d; } };
struct Heur { long operator()(const std::size_t &v, const std::size_t &goal) const; };
void use(const A &a, const B &b, const C &c, const AI &ai, const BI &bi, const CI &ci, Set &s, Fifo &f, Lifo &l, V &v, Map &p, DistI &di, Col &co, Heap<long> &hi) {
    graph::breadth_first_search(a, 0, s, f, v);
    graph::breadth_first_search(b, 0, s, f, v);
    graph::breadth_first_search(c, 0, s, f, v);
    graph::depth_first_search(a, 0, s, l, v);
    graph::depth_first_search(b, 0, s, l, v);
    graph::depth_first_search(c, 0, s, l, v);
    graph::dijkstra_shortest_path(ai, 0, p, di, co, hi, v, WtI{});
    graph::dijkstra_shortest_path(bi, 0, p, di, co, hi, v, WtI{});
    graph::dijkstra_shortest_path(ci, 0, p, di, co, hi, v, WtI{});
    graph::a_star_shortest_path(ai, 0, 1, p, di, co, hi, v, WtI{}, Heur{});
    graph::a_star_shortest_path(bi, 0, 1, p, di, co, hi, v, WtI{}, Heur{});
    graph::a_star_shortest_path(ci, 0, 1, p, di, co, hi, v, WtI{}, Heur{});
    graph::priority_type_comparator<std::pair<long, std::size_t>>{}(hi.least, hi.least);
}
