// T01: tags of nodes and edges against plain lists, in memory and in a memory mapped file
#include "h.hpp"
#include <map>
#include <filesystem>
#include <osmium/builder/attr.hpp>
#include <osmium/memory/buffer.hpp>
#include <osmium/osm/node.hpp>
#include "io/helper/tag_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
using namespace map_matching_2;
using MT = io::memory_mapped::memory_types;
using FT = io::memory_mapped::file_types;
namespace st = io::memory_mapped::storage;
using Tag = std::pair<std::string, std::string>;

// allocation failures: the n-th allocation from here on throws
static thread_local long fail_at = 0;
void *operator new(std::size_t n) {
    if (fail_at > 0 and --fail_at == 0) throw std::bad_alloc{};
    void *p = std::malloc(n ? n : 1);
    if (not p) throw std::bad_alloc{};
    return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }

static std::string scratch() {
    static pid_t owner = 0;
    static std::string dir;
    if (owner != getpid()) {
        owner = getpid();
        auto b = std::filesystem::exists("/dev/shm") ? std::filesystem::path{"/dev/shm"} : std::filesystem::temp_directory_path();
        std::string t = (b / "verif_t01_XXXXXX").string();
        if (not mkdtemp(t.data())) throw std::runtime_error{"no scratch directory"};
        dir = t;
    }
    return dir;
}
static void clean() {
    std::error_code e;
    std::filesystem::remove(scratch() + "/tags.bin", e);
    std::filesystem::remove(scratch() + "/other.bin", e);
    std::filesystem::remove(scratch(), e);
}

struct Model {
    std::vector<Tag> tags;
    std::map<std::uint64_t, std::vector<std::uint64_t>> on[2];
    bool fin = false;
    std::uint64_t id(const Tag &t) {
        for (std::size_t i = 0; i < tags.size(); ++i) if (tags[i] == t) return i;
        tags.push_back(t);
        return tags.size() - 1;
    }
};

static std::string word(h::Rng &r, bool many) {
    static const char *w[] = {"highway", "name", "yes", "residential", "", "a", "oneway", "a name that is too long to be kept inside of a small string, so it is allocated"};
    if (many and r.flip(60)) return w[r.below(8)] + std::to_string(r.below(40));
    return w[r.below(8)];
}

template<class H>
static void check(h::Ctx &c, const char *who, H &hp, Model &m) {
    for (std::size_t i = 0; i < m.tags.size(); ++i) {
        auto t = hp.tag(i);
        c.require(t == m.tags[i], "tag(id) gives key and value", who, " tag ", i, " is ", t.first, "=", t.second, " expected ", m.tags[i].first, "=", m.tags[i].second);
    }
    bool thrown = false;
    try { (void) hp.tag(m.tags.size()); } catch (const std::invalid_argument &) { thrown = true; }
    c.require(thrown, "tag(id) throws for unknown ids", who);
    for (int e = 0; e < 2; ++e)
        for (std::uint64_t i = 0; i < 8; ++i) {
            const auto &l = e ? hp.edge_tags(i) : hp.node_tags(i);
            std::vector<std::uint64_t> got(l.begin(), l.end()), want;
            if (auto f = m.on[e].find(i); f != m.on[e].end()) want = f->second;
            std::ostringstream o;
            for (auto x : got) o << x << " ";
            o << "expected ";
            for (auto x : want) o << x << " ";
            c.require(got == want, "tags of an id", who, e ? " edge " : " node ", i, ": ", o.str());
        }
}

template<class H>
static void fill(h::Ctx &c, H &hp, Model &m, const char *who, int ops, bool many, const auto &others) {
    using V = typename H::tag_vector_type;
    auto &r = c.rng;
    auto make = [&](const std::vector<std::uint64_t> &x) { V v = hp.tag_storage().tags(); for (auto t : x) v.push_back(t); return v; };
    for (int q = 0; q < ops; ++q) {
        std::uint64_t i = r.below(8), j = r.below(8);
        int e = r.below(2);
        auto list = [&](int n) { std::vector<std::uint64_t> x; while (n-- > 0) x.push_back(r.below(m.tags.size())); return x; };
        auto put = [&](std::vector<std::uint64_t> x) { if (not x.empty()) m.on[e].emplace(i, x); };
        switch (r.below(many ? 9 : 8)) {
            case 0: case 1: case 8: {
                Tag t{word(r, many), word(r, many)};
                c.trace << who << " id " << t.first << "=" << t.second << "\n";
                if (m.fin) {
                    bool thrown = false;
                    try { (void) hp.id(t.first, t.second); } catch (const std::runtime_error &) { thrown = true; }
                    c.require(thrown, "no tags after finalize", who);
                } else if (not io::helper::is_mmap_tag_helper<H> and r.flip(25)) {
                    std::uint64_t got = 0;
                    bool failed = false;
                    int at = 1 + r.below(4);
                    c.trace << "  allocation " << at << " fails\n";
                    fail_at = at;
                    try { got = hp.id(t.first, t.second); } catch (const std::bad_alloc &) { failed = true; }
                    fail_at = 0;
                    if (not failed) {
                        auto want = m.id(t);
                        c.require(got == want, "id of a tag", who, " got ", got, " expected ", want);
                    }
                } else {
                    auto got = hp.id(t.first, t.second);
                    auto want = m.id(t);
                    c.require(got == want, "id of a tag", who, " got ", got, " expected ", want);
                }
                break;
            }
            case 2: {
                auto x = list(m.tags.empty() ? 0 : r.below(5));
                c.trace << who << " set " << e << " " << i << " " << x.size() << " tags\n";
                if (e) hp.set_edge_tags(i, make(x)); else hp.set_node_tags(i, make(x));
                put(x);
                break;
            }
            case 3: {
                auto x = list(m.tags.empty() ? 0 : r.below(5));
                c.trace << who << " copy " << e << " " << i << " " << x.size() << " tags\n";
                if (e) hp.copy_edge_tags(i, x); else hp.copy_node_tags(i, x);
                put(x);
                break;
            }
            case 4: {
                if (m.fin) break;
                others([&](auto &o, Model &om) {
                    std::vector<std::uint64_t> x;
                    bool had = m.on[e].contains(i);
                    c.trace << who << " clone " << e << " " << i << " had " << had << "\n";
                    if (auto f = om.on[e].find(i); f != om.on[e].end()) for (auto t : f->second) x.push_back(m.id(om.tags[t]));
                    if (e) hp.clone_edge_tags(i, o); else hp.clone_node_tags(i, o);
                    put(x);
                });
                break;
            }
            case 5: case 6: {
                c.trace << who << " merge " << i << " " << j << "\n";
                hp.merge_edge_tags(i, j);
                if (i != j)
                    if (auto f = m.on[1].find(j); f != m.on[1].end()) {
                        auto x = f->second;
                        auto g = m.on[1].find(i);
                        if (g == m.on[1].end()) m.on[1].emplace(i, x);
                        else {
                            auto old = g->second;
                            for (auto t : x) if (std::find(old.begin(), old.end(), t) == old.end()) g->second.push_back(t);
                        }
                    }
                break;
            }
            case 7: {
                if (m.fin) break;
                std::vector<Tag> ts;
                for (int n = r.below(5); n-- > 0;) ts.emplace_back(word(r, many), word(r, many));
                c.trace << who << " osm " << e << " " << i << " " << ts.size() << " tags\n";
                osmium::memory::Buffer b{1024, osmium::memory::Buffer::auto_grow::yes};
                using namespace osmium::builder::attr;
                osmium::builder::add_node(b, _id(1), _tags(ts));
                const auto &n = b.get<osmium::Node>(0);
                if (e) hp.set_edge_tags(i, n.tags()); else hp.set_node_tags(i, n.tags());
                std::vector<std::uint64_t> x;
                for (const auto &t : ts) x.push_back(m.id(t));
                put(x);
                break;
            }
        }
    }
}

static void one(h::Ctx &c) {
    auto &r = c.rng;
    using HM = io::helper::tag_helper_type<MT>;
    using HI = io::helper::import_tag_helper_type<MT>;
    using HF = io::helper::tag_helper_type<FT>;
    Model ma, mb;
    HM a;
    HI b;
    auto none = [](auto f) {};
    bool many = r.flip();
    fill(c, b, mb, "other", many ? 30 : 10, many, none);
    auto clone = [&](auto f) { f(b, mb); };
    fill(c, a, ma, "memory", many ? 30 : 12, many, clone);
    check(c, "memory", a, ma);
    if (r.flip(30)) {
        HM n{std::move(a)};
        check(c, "moved", n, ma);
        a = HM{};
        Model me;
        check(c, "empty", a, me);
        a = std::move(n);
        check(c, "assigned", a, ma);
        c.trace << "moved\n";
    }
    if (r.flip(30)) { a.finalize(); ma.fin = true; c.trace << "finalized\n"; fill(c, a, ma, "memory", 6, many, clone); }
    check(c, "memory", a, ma);
    c.nontrivial = ma.tags.size() > 2;
    if (r.flip(25)) {
        Model mf;
        {
            // large enough not to grow: maps of this version of boost hold plain pointers and cannot be mapped elsewhere
            std::size_t size = 4 * 1024 * 1024;
            c.trace << "file\n";
            HF f{typename HF::tag_storage_type{scratch(), "tags.bin", st::DESTROY_AND_CREATE, size}};
            auto cl = [&](auto g) { if (r.flip()) g(a, ma); else g(b, mb); };
            fill(c, f, mf, "file", many ? 120 : 30, many, cl);
            check(c, "file", f, mf);
            if (r.flip()) { f.finalize(); mf.fin = true; c.trace << "finalized\n"; }
            check(c, "file", f, mf);
            HM k;
            Model mk;
            for (std::uint64_t i = 0; i < 8; ++i) { k.clone_edge_tags(i, f); if (auto x = mf.on[1].find(i); x != mf.on[1].end()) { std::vector<std::uint64_t> y; for (auto t : x->second) y.push_back(mk.id(mf.tags[t])); if (not y.empty()) mk.on[1].emplace(i, y); } }
            check(c, "cloned from file", k, mk);
            if (r.flip(30)) { HF n{std::move(f)}; check(c, "moved file", n, mf); }
        }
        clean();
        std::filesystem::create_directory(scratch());
    }
}

int main(int argc, char **argv) {
    return h::run(argc, argv, [](h::Ctx &c) {
        struct G { ~G() { clean(); } };
        std::filesystem::create_directory(scratch());
        G g;
        one(c);
    });
}

namespace map_matching_2::util { const std::string version() { return "harness"; } }
