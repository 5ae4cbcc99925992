#include <cassert>
#include <limits>
#include <cstdint>
#include "learning/algorithms/viterbi.hpp"
using namespace map_matching_2;
struct Env {
    using action_type = std::int64_t;
    action_type no_action = -1;
    std::vector<std::vector<double>> obs;
    std::vector<std::vector<std::vector<double>>> tr;
    const std::vector<std::vector<double>> &observations() const { return obs; }
    const std::vector<std::vector<std::vector<double>>> &transitions() const { return tr; }
    bool abort();
};
std::vector<std::pair<std::size_t, std::size_t>> use(learning::viterbi<Env> &v) { return v(); }
