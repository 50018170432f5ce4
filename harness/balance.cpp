// Balance of the ordered containers: how many entries does a lookup or an insertion inspect?
// Part 1 (explorer): keys are handles whose order lives outside of the container, so a state is a tree
//   shape with colours only; every insertion gap and every erasure is tried in every reachable tree of
//   up to CAP entries.
// Part 2 (-DLARGE): all sequences of PHASES phases out of an alphabet of structured runs.
// -DKIND_MAP | -DKIND_SET [-DCONTIGUOUS] [-DDEDICATED] -DCAP=<n>
#include "mc.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_index_based_storage.hpp"
#include "fixed_containers/fixed_red_black_tree_types.hpp"
#include <cmath>
using namespace mc;
namespace fc = fixed_containers;
#ifdef CONTIGUOUS
#define STORAGE fc::FixedIndexBasedContiguousStorage
#else
#define STORAGE fc::FixedIndexBasedPoolStorage
#endif
#ifdef DEDICATED
constexpr auto COLORS = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
#else
constexpr auto COLORS = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
#endif
// A red-black tree of n entries is at most 2*log2(n+2)-2 deep, so this leaves room for two extra inspections.
static long bound(std::size_t n) { return n == 0 ? 1 : (long)std::floor(2.0 * std::log2((double)n + 1.0) + 1e-9); }

#ifndef LARGE
struct Id
{
    int id;
};
constexpr int PROBE = CAP + 1;
static int g_rank[CAP + 2];
static std::uint64_t g_seen[CAP + 2], g_epoch = 1;
static long g_inspected = 0;
static int g_first = -1;
static std::string g_path;
static int g_probe = PROBE;
static void look(int id)
{
    if (id == g_probe) return;
    if (g_seen[id] != g_epoch) { g_seen[id] = g_epoch; ++g_inspected; if (g_first < 0) g_first = id; }
}
struct Cmp
{
    constexpr bool operator()(const Id& a, const Id& b) const
    {
        if (!std::is_constant_evaluated()) { look(a.id); look(b.id); }
        return g_rank[a.id] < g_rank[b.id];
    }
};
static void probe(int id) { g_probe = id; ++g_epoch; g_inspected = 0; g_first = -1; }
#ifdef KIND_MAP
using C = fc::FixedMap<Id, int, CAP, Cmp, COLORS, STORAGE>;
#else
using C = fc::FixedSet<Id, CAP, Cmp, COLORS, STORAGE>;
#endif
static int kid(const auto& e)
{
#ifdef KIND_MAP
    return e.first.id;
#else
    return e.id;
#endif
}

struct Sys
{
    using M = std::vector<int>;  // ids in order
    static constexpr bool TRACKED = false;
    M model;
    std::vector<Op<Sys>> ops;
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    std::string ser(const M& m) { return std::string(m.begin(), m.end()); }
    M deser(const char* p, std::size_t n) { return M(p, p + n); }
    void construct_initial() { R((void)new (slot(0)) C()); model.clear(); }
    void ranks()
    {
        for (int i = 0; i < CAP + 2; ++i) g_rank[i] = -1;
        for (std::size_t i = 0; i < model.size(); ++i) g_rank[model[i]] = 2 * (int)i + 1;
    }
    // shape (and colours) of the tree
    std::string abs_key() { return shape_of(c()); }
    template <class T>
    std::string shape_of(T& t)
    {
        std::string o;
        if constexpr (requires { t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.root_index()).left_index();
                                 t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).color() ? 1 : 0; t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).right_index(); t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).key(); })
        {
            auto& tree = t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_;
            std::size_t budget = 4 * (CAP + 2);
            std::function<void(std::size_t)> rec = [&](std::size_t i)
            {
                if (i >= CAP || budget-- == 0) { o += '.'; return; }
                auto n = tree.node_at(i);
                o += n.color() ? 'b' : 'r';
                rec(n.left_index());
                rec(n.right_index());
            };
            rec(tree.root_index());
        }
        else
        {
            // by behaviour: the number of entries inspected for each key and gap
            ranks();
            for (std::size_t i = 0; i < model.size(); ++i) { probe(PROBE); g_rank[PROBE] = 2 * (int)i + 1; (void)t.contains(Id{PROBE}); o += (char)g_inspected; o += (char)(g_first < 0 ? 0 : g_rank[g_first]); }
            for (std::size_t i = 0; i <= model.size(); ++i) { probe(PROBE); g_rank[PROBE] = 2 * (int)i; (void)t.contains(Id{PROBE}); o += (char)g_inspected; }
        }
        return o;
    }
    int free_id()
    {
        for (int i = 0; i < CAP; ++i) if (std::find(model.begin(), model.end(), i) == model.end()) return i;
        return -1;
    }
    template <class F>
    void counted(const char* what, int rank, F&& f)
    {
        probe(PROBE);
        g_rank[PROBE] = rank;
        f();
        worst = std::max(worst, g_inspected * 100 / bound(model.size()));
        MC_CHECK(g_inspected <= bound(model.size()), BAL, what, " inspected ", g_inspected, " entries of ", (long)model.size(), ", allowed ", bound(model.size()));
    }
    long worst = 0;
    void observe()
    {
        ranks();
        const C& x = c();
        MC_CHECK(x.size() == model.size(), SEM | BAL, "size");
        std::size_t i = 0;
        for (auto it = x.begin(); it != x.end() && i < model.size() + 1; ++it, ++i)
            MC_CHECK(i < model.size() && kid(*it) == model[i], SEM | BAL, "content");
        MC_CHECK(i == model.size(), SEM | BAL, "content by iteration");
        for (int r = 0; r <= 2 * (int)model.size(); ++r)
        {
            bool has = false, con = false;
            counted("find", r, [&] { has = R(x.find(Id{PROBE})) != x.end(); });
            counted("contains", r, [&] { con = R(x.contains(Id{PROBE})); });
            MC_CHECK(has == (r % 2 == 1) && con == has, SEM | BAL, "lookup result");
            counted("count", r, [&] { (void)R(x.count(Id{PROBE})); });
            counted("lower_bound", r, [&] { (void)R(x.lower_bound(Id{PROBE})); });
            counted("upper_bound", r, [&] { (void)R(x.upper_bound(Id{PROBE})); });
        }
        g_notes["worst_percent_of_bound"] = std::max<std::uint64_t>(g_notes["worst_percent_of_bound"], (std::uint64_t)worst);
    }
    void build()
    {
        for (int g = 0; g <= CAP; ++g)
            for (int form = 0; form < 6; ++form)
            op(cat_str((const char* const[]){"insert at gap ", "insert with the hint begin() at gap ", "insert with the hint end() at gap ", "insert with the right hint at gap ", "emplace at gap ", "insert a range of one at gap "}[form], g), [=](Sys& s)
            {
                if (s.model.size() >= CAP || g > (int)s.model.size()) return false;
                if (form && g_opt.abstract && s.model.size() > 9) return false;
                const int id = s.free_id();
                s.ranks();
                g_rank[id] = 2 * g;
                // g_rank must stay valid for the new id while the tree is being changed
                probe(id);
#ifdef KIND_MAP
                using V = std::pair<const Id, int>;
                const V v[1] = {{Id{id}, 1}};
                if (form == 0) R((void)s.c().try_emplace(Id{id}, 1));
                if (form == 4) R((void)s.c()[Id{id}]);
#else
                const Id v[1] = {Id{id}};
                if (form == 0) R((void)s.c().insert(Id{id}));
                if (form == 4) R((void)s.c().emplace(Id{id}));
#endif
                if (form >= 1 && form <= 3)
                {
                    const auto hint = form == 1 ? s.c().cbegin() : form == 2 ? s.c().cend() : std::next(s.c().cbegin(), g);
#ifdef KIND_MAP
                    if (id & 1) R((void)s.c().insert_or_assign(hint, Id{id}, 1)); else R((void)s.c().try_emplace(hint, Id{id}, 1));
#else
                    if (id & 1) R((void)s.c().emplace_hint(hint, Id{id})); else R((void)s.c().insert(hint, Id{id}));
#endif
                }
                if (form == 5) R(s.c().insert(v, v + 1));
                MC_CHECK(g_inspected <= bound(s.model.size()), BAL, "insertion inspected ", g_inspected, " entries of ", (long)s.model.size());
                s.model.insert(s.model.begin() + g, id);
                return true;
            });
        for (int g = 0; g < CAP; ++g)
        {
            op(cat_str("erase(key) rank ", g), [=](Sys& s)
            {
                if (g >= (int)s.model.size()) return false;
                s.ranks();
                probe(PROBE);
                g_rank[PROBE] = 2 * g + 1;
                R((void)s.c().erase(Id{PROBE}));
                MC_CHECK(g_inspected <= bound(s.model.size()), BAL, "erasure inspected ", g_inspected, " entries of ", (long)s.model.size());
                s.model.erase(s.model.begin() + g);
                return true;
            });
            op(cat_str("erase(iterator) rank ", g), [=](Sys& s)
            {
                if (g >= (int)s.model.size()) return false;
                s.ranks();
                probe(PROBE);
                R((void)s.c().erase(std::next(s.c().begin(), g)));
                s.model.erase(s.model.begin() + g);
                return true;
            });
            for (int n = 2; n <= CAP - g; ++n)
                op(cat_str("erase(range) rank ", g, " length ", n), [=](Sys& s)
                {
                    if (g + n > (int)s.model.size() || (s.model.size() > 11 && n > 3)) return false;
                    s.ranks();
                    probe(PROBE);
                    R((void)s.c().erase(std::next(s.c().cbegin(), g), std::next(s.c().cbegin(), g + n)));
                    s.model.erase(s.model.begin() + g, s.model.begin() + g + n);
                    return true;
                });
        }
        for (int odd = 0; odd < 2; ++odd)
            op(cat_str("erase_if every other from ", odd), [=](Sys& s)
            {
                if (s.model.size() < 2) return false;
                s.ranks();
                probe(PROBE);
                R((void)erase_if(s.c(), [&](const auto& e) { return ((g_rank[kid(e)] - 1) / 2) % 2 == odd; }));
                M m;
                for (std::size_t i = 0; i < s.model.size(); ++i) if ((int)i % 2 != odd) m.push_back(s.model[i]);
                s.model = m;
                return true;
            });
        for (int how = 0; how < 4; ++how)
            op((const char* const[]){"becomes a copy of itself", "is moved to another and back", "copy-assigned", "move-assigned"}[how], [=](Sys& s)
            {
                if (s.model.size() > 9) return false;
                s.ranks();
                probe(PROBE);
                C o = how == 1 || how == 3 ? C(std::move(s.c())) : C(s.c());
                if (how == 0 || how == 1) { R(s.c().~C()); R((void)new (slot(0)) C(std::move(o))); }
                else if (how == 2) R((void)(s.c() = o));
                else R((void)(s.c() = std::move(o)));
                return true;
            });
    }
};
#else
// ------------------------------------------------------------------ large, structured histories
using Key = long long;
static Key g_probe_v;
static std::vector<Key> g_ins;
static bool g_count = false;
struct Cmp
{
    bool operator()(const Key& a, const Key& b) const
    {
        if (g_count)
        {
            const Key e = &a == &g_probe_v ? b : a;
            if (std::find(g_ins.begin(), g_ins.end(), e) == g_ins.end()) g_ins.push_back(e);
        }
        return a < b;
    }
};
#ifdef KIND_MAP
using C = fc::FixedMap<Key, int, CAP, Cmp, COLORS, STORAGE>;
#else
using C = fc::FixedSet<Key, CAP, Cmp, COLORS, STORAGE>;
#endif
static Key kk(const auto& e)
{
#ifdef KIND_MAP
    return e.first;
#else
    return e;
#endif
}
static void ins(C& c, Key k)
{
#ifdef KIND_MAP
    c.try_emplace(k, 0);
#else
    c.insert(k);
#endif
}
constexpr Key GAP = 1LL << 24;
static const char* PH[] = {"ascending run above", "descending run below", "zigzag outwards", "ascending run inside the middle gap", "descending run inside the middle gap",
                           "one into every gap", "erase smallest", "erase largest", "erase middle", "erase every other", "erase root", "erase by iterator from the middle up",
                           "erase the middle third by range", "erase_if", "copy-assign"};
constexpr int NPH = 15;
static void phase(C& c, int ph, int L)
{
    auto lo = [&] { return c.empty() ? Key(0) : kk(*c.begin()); };
    auto hi = [&] { return c.empty() ? Key(0) : kk(*std::prev(c.end())); };
    auto mid = [&] { return std::next(c.begin(), (long)c.size() / 2); };
    const std::size_t room = CAP - c.size();
    if (ph <= 5) L = (int)std::min<std::size_t>((std::size_t)L, room);
    else if (ph != 9) L = (int)std::min<std::size_t>((std::size_t)L, c.size());
    switch (ph)
    {
    case 0: for (int i = 0; i < L; ++i) ins(c, hi() + GAP); break;
    case 1: for (int i = 0; i < L; ++i) ins(c, lo() - GAP); break;
    case 2: for (int i = 0; i < L; ++i) ins(c, i & 1 ? hi() + GAP : lo() - GAP); break;
    case 3:
    case 4:
    {
        if (c.size() < 2) return phase(c, 0, L);
        auto m = mid();
        const Key b = kk(*m), a = kk(*std::prev(m)), st = (b - a) / (L + 1);
        if (st < 1) return;
        for (int i = 0; i < L; ++i) ins(c, ph == 3 ? a + st * (i + 1) : b - st * (i + 1));
        break;
    }
    case 5:
    {
        std::vector<Key> add;
        Key prev = lo() - GAP;
        for (auto&& e : c) { if (add.size() < (std::size_t)L && kk(e) - prev > 1) add.push_back(prev + (kk(e) - prev) / 2); prev = kk(e); }
        for (Key k : add) ins(c, k);
        break;
    }
    case 6: for (int i = 0; i < L; ++i) c.erase(lo()); break;
    case 7: for (int i = 0; i < L; ++i) c.erase(hi()); break;
    case 8: for (int i = 0; i < L; ++i) c.erase(kk(*mid())); break;
    case 9:
        for (auto it = c.begin(); it != c.end();) { it = c.erase(it); if (it != c.end()) ++it; }
        break;
    case 10:
        for (int i = 0; i < L; ++i)
        {
            g_ins.clear();
            g_probe_v = lo();
            g_count = true;
            (void)c.contains(g_probe_v);
            g_count = false;
            if (g_ins.empty()) return;
            c.erase(g_ins[0]);
        }
        break;
    case 11:
    {
        auto it = mid();
        for (int i = 0; i < L && it != c.end(); ++i) it = c.erase(it);
        break;
    }
    case 12: c.erase(std::next(c.begin(), (long)c.size() / 3), std::next(c.begin(), (long)(c.size() - c.size() / 3))); break;
    case 13:
    {
        long i = 0;
        erase_if(c, [&](const auto&) { return (i++ & 3) < 2; });
        break;
    }
    case 14:
    {
        C* d = new C(c);
        c.clear();
        c = *d;
        delete d;
        break;
    }
    }
}
static std::vector<int> g_seq;
static long g_L = 0;
static std::uint64_t g_worst = 0;
static std::string seq_name()
{
    std::string o = "runs of " + std::to_string(g_L) + ": ";
    for (int p : g_seq) o += std::string(PH[p]) + "; ";
    return o;
}
static void check_all(const C& c)
{
    ++g_states;
    g_current_op = seq_name();
    const long lim = bound(c.size());
    std::size_t n = 0;
    Key prev = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++n)
    {
        MC_CHECK(n == 0 || prev < kk(*it), BAL | SEM, "order");
        prev = kk(*it);
        for (int d = 0; d < 2; ++d)
        {
            g_ins.clear();
            g_probe_v = prev + d;
            g_count = true;
            const bool has = c.contains(g_probe_v);
            g_count = false;
            MC_CHECK(has || d, BAL | SEM, "lookup");
            const long got = (long)g_ins.size();
            if ((std::uint64_t)got * 100 / (std::uint64_t)lim > g_worst) g_worst = (std::uint64_t)got * 100 / (std::uint64_t)lim;
            MC_CHECK(got <= lim, BAL, "a lookup inspected ", got, " entries of ", (long)c.size(), ", allowed ", lim);
        }
    }
    MC_CHECK(n == c.size(), BAL | SEM, "size");
}
static void dfs(const C& c, int left)
{
    for (int p = 0; p < NPH; ++p)
    {
        if (p >= 6 && c.empty()) continue;
        C* d = new C(c);
        g_seq.push_back(p);
        ++g_transitions;
        g_current_op = seq_name();
        Event ev = guarded([&] { phase(*d, p, (int)g_L); check_all(*d); });
        if (ev.kind != EV_NONE) fail(BAL | SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
        if (left > 1) dfs(*d, left - 1);
        g_seq.pop_back();
        delete d;
    }
}
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
#ifndef LARGE
    init_slots(sizeof(C));
    g_opt.abstract = true;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.abs_ignores_model = true;
    ex.run();
#else
    C* c = new C();
    for (auto [L, depth] : std::vector<std::pair<int, int>>{LARGE}) { g_L = L; dfs(*c, depth); }
    g_notes["enumerated"] = 1;
    g_notes["worst_percent_of_bound"] = g_worst;
#endif
    finish(0);
}
