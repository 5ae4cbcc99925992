#include "types/io/memory_mapped/types.hpp"
#include "io/helper/tag_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
using namespace map_matching_2;
using H = io::helper::tag_helper_type<io::memory_mapped::memory_types>;
std::uint64_t t_id(H &h, const std::string &k, const std::string &v) { return h.id(k, v); }
std::pair<std::string, std::string> t_tag(const H &h, std::uint64_t i) { return h.tag(i); }
using V = typename H::tag_vector_type;
void t_sets(H &h, const H &o, std::uint64_t i, std::uint64_t j, V &a) {
    h.set_node_tags(i, std::move(a));
    h.set_edge_tags(i, std::move(a));
    h.copy_node_tags(i, a);
    h.copy_edge_tags(i, a);
    h.clone_node_tags(i, o);
    h.clone_edge_tags(i, o);
    h.merge_edge_tags(i, j);
    (void) h.node_tags(i);
    (void) h.edge_tags(i);
    h.finalize();
}
void t_osm(H &h, std::uint64_t i, const osmium::TagList &t) {
    h.set_node_tags(i, t);
    h.set_edge_tags(i, t);
}
