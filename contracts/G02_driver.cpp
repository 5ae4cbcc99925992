#include <cassert>
#include <vector>
#include <format>
#include <list>
#include <memory>
#include <stdexcept>
#include <boost/serialization/vector.hpp>
#include "graph/common.hpp"
#include "graph/container_view.hpp"
#include "graph/container_subview.hpp"
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
using namespace map_matching_2;
template<class Dir> using G = graph::adjacency_list<std::vector, std::vector, Dir, int, int, std::vector>;
using C = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, int, int>;
using W = graph::container_view<std::vector<int>>;
using U = graph::container_subview<std::vector<int>>;
std::size_t use(C &c, const C &k, const G<graph::directional> &a, const G<graph::undirected> &b, const G<graph::bidirectional> &d, std::size_t x, std::vector<int> &v, W &w, const W &kw, U &u, const U &ku, long p) {
    c.from_adjacency_list(a);
    c.from_adjacency_list(b);
    c.from_adjacency_list(d);
    std::size_t r = k.source(x) + k.target(x) + c.source(x) + c.target(x) + k.out_degree(x) + k.vertex_index(x) + k.edge_index(x);
    r += k.get_vertex(x).get() + c.get_vertex(x).get() + k.get_edge(x).get() + c.get_edge(x).get() + k.get_vertex_data(x) + c.get_vertex_data(x) + k.get_edge_data(x) + c.get_edge_data(x);
    r += k.out_edges_view(x).size() + c.out_edges_view(x).size();
    r += kw[x] + w[x] + kw.at(p) + w.at(p) + kw.front() + w.front() + kw.back() + w.back() + kw.begin() + kw.end() + kw.next(x, p) + kw.prev(x, p) + kw.size() + kw.empty();
    r += ku.at(p) + u.at(p) + ku.front() + u.front() + ku.back() + u.back() + ku.begin() + ku.end() + ku.size() + ku.empty();
    U s{v, x, x};
    return r + s.size();
}
