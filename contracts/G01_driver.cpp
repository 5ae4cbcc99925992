#include <cassert>
#include <vector>
#include <format>
#include <list>
#include <memory>
#include <stdexcept>
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/adjacency_list.hpp"
using namespace map_matching_2;
template<class Dir> using G = graph::adjacency_list<std::vector, std::vector, Dir, int, int, std::vector>;
template<class A> std::size_t use(A &g, const A &c, A &o, std::size_t x, std::size_t y, int d) {
    std::size_t r = g.add_vertex(d) + g.add_edge(x, y, d) + c.out_degree(x) + c.source(y) + c.target(y) + g.source(y) + g.target(y) + c.vertex_index(x) + c.edge_index(y);
    r += c.get_vertex(x).get() + c.get_edge(y).get() + g.get_vertex(x).get() + g.get_edge(y).get() + c.get_vertex_data(x) + c.get_edge_data(y) + c.out_edges_view(x).size();
    r += c.is_same_vertex(x, y) + c.is_same_edge(x, y) + c.is_self_loop(y);
    g.copy_from(c);
    g = c;
    A h{c};
    return r + h.vertices.size();
}
template<class A> std::size_t bi(const A &c, std::size_t x) { return c.in_degree(x) + c.degree(x) + c.in_edges_view(x).size(); }
std::size_t use_all(G<graph::directional> &a, G<graph::undirected> &b, G<graph::bidirectional> &c, std::size_t x, std::size_t y) {
    return use(a, a, a, x, y, 1) + use(b, b, b, x, y, 1) + use(c, c, c, x, y, 1) + bi(c, x) + b.is_undirected_reverse(x, y);
}
