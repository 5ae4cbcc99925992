#include "h.hpp"
#include <limits>
#include "learning/algorithms/viterbi.hpp"
using namespace map_matching_2;

struct Env {
    using action_type = std::int64_t;
    const action_type no_action = -1;
    std::vector<std::vector<double>> obs;
    std::vector<std::vector<std::vector<double>>> tr;
    std::size_t calls = 0, abort_at = ~std::size_t{0};
    const auto &observations() const { return obs; }
    const auto &transitions() const { return tr; }
    bool abort() { return calls++ >= abort_at; }
};
static constexpr double ninf = -std::numeric_limits<double>::infinity();

static void one(h::Ctx &c) {
    auto &r = c.rng;
    Env e;
    std::size_t n = r.below(7);
    int kind = r.below(4); // 0: ties, 1: reals, 2: many unreachable, 3: long
    if (kind == 3) n = r.below(30);
    int empty = r.flip(30) ? 30 : 0, zero = kind == 2 ? 60 : r.flip() ? 10 : 0;
    auto val = [&] { return r.flip(zero) ? ninf : kind == 0 ? -(double) r.in(0, 2) : -r.real(0, 9); };
    for (std::size_t t = 0; t < n; ++t) {
        std::size_t m = r.flip(empty) ? 0 : 1 + r.below(4);
        if (t == 0 and empty and r.flip()) m = 0;
        std::vector<double> o;
        std::vector<std::vector<double>> q;
        for (std::size_t g = 0; g < m; ++g) {
            o.push_back(kind == 0 ? -(double) r.in(0, 2) : -r.real(0, 9));
            std::vector<double> p;
            std::size_t k = t == 0 ? 1 : e.obs[t - 1].size();
            for (std::size_t s = 0; s < k; ++s) p.push_back(t == 0 ? std::log(1.0 / m) : val());
            q.push_back(p);
        }
        e.obs.push_back(o);
        e.tr.push_back(q);
    }
    c.trace << n << " lists:";
    for (std::size_t t = 0; t < n; ++t) {
        c.trace << " [" << t << ":";
        for (std::size_t g = 0; g < e.obs[t].size(); ++g) { c.trace << " " << e.obs[t][g] << "<"; for (double x : e.tr[t][g]) c.trace << x << ","; }
        c.trace << "]";
    }
    bool aborting = r.flip(5);
    if (aborting) e.abort_at = r.below(12);
    learning::viterbi<Env> v{e};
    auto policy = v();
    if (aborting and e.calls > e.abort_at) { c.require(policy.empty(), "abort", "an aborted search returned a path"); return; }
    // oracle
    std::size_t first = 0;
    while (first < n and e.obs[first].empty()) ++first;
    std::vector<std::vector<double>> W(n);
    for (std::size_t t = first; t < n; ++t)
        for (std::size_t g = 0; g < e.obs[t].size(); ++g) {
            double best = ninf;
            if (t == first) best = (t == 0 ? e.tr[0][g][0] : std::log(1.0 / e.tr[t].size())) + e.obs[t][g];
            else for (std::size_t s = 0; s < e.obs[t - 1].size(); ++s) best = std::max(best, W[t - 1][s] + e.tr[t][g][s] + e.obs[t][g]);
            W[t].push_back(best);
        }
    double best = ninf;
    if (n) for (double w : W[n - 1]) best = std::max(best, w);
    c.nontrivial = best > ninf and n > 1;
    if (best == ninf) { c.require(policy.empty(), "no path", "there is no path to the last list, but ", policy.size(), " selections"); return; }
    c.require(policy.size() == n - first, "one candidate per list", policy.size(), " selections for ", n - first, " lists");
    double w = 0;
    for (std::size_t i = 0; i < policy.size(); ++i) {
        auto [t, g] = policy[i];
        c.require(t == first + i, "one candidate per list", "selection ", i, " is for list ", t);
        c.require(g < e.obs[t].size(), "candidate exists", "selection ", i, " is candidate ", g);
        if (i == 0) w = (t == 0 ? e.tr[0][g][0] : std::log(1.0 / e.tr[t].size())) + e.obs[t][g];
        else w = w + e.tr[t][g][policy[i - 1].second] + e.obs[t][g];
    }
    c.require(w == best, "best path", "the selected path has ", w, ", the best one ", best);
}

int main(int argc, char **argv) { return h::run(argc, argv, std::vector<h::Group>{one}); }
