// Associative containers against a sorted / plain vector of (key, value) as the reference model.
// -DKIND_MAP | -DKIND_SET | -DKIND_UMAP | -DKIND_USET
// -DKEY=<type> -DVAL=<type> -DCAP=<n> -DNKEY=<n> -DNVALS=<n>
// ordered:   -DCMP_LESS | -DCMP_GREATER | -DCMP_TRANSPARENT | -DCMP_STATEFUL | -DCMP_COARSE
//            [-DCONTIGUOUS] [-DDEDICATED]
// unordered: -DHASH_WY | -DHASH_ID | -DHASH_CONST | -DHASH_MOD2 | -DHASH_FP | -DHASH_STATEFUL | -DHASH_COARSE
//            [-DBUCKETS=<n>]
#include "mc.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace mc;
namespace fc = fixed_containers;
#if defined(KIND_MAP) || defined(KIND_SET)
constexpr bool ORDERED = true;
#else
constexpr bool ORDERED = false;
#endif
#if defined(KIND_MAP) || defined(KIND_UMAP)
constexpr bool MAPC = true;
#else
constexpr bool MAPC = false;
#endif
#ifndef VAL
#define VAL int
#endif
#ifndef NVALS
#define NVALS 1
#endif
using GK = KEY;
using GW = VAL;
constexpr bool KCOPY = std::is_copy_constructible_v<GK>;
constexpr bool WCOPY = std::is_copy_constructible_v<GW>;
constexpr bool COPYABLE = KCOPY && (!MAPC || WCOPY);
constexpr bool WDEF = std::is_default_constructible_v<GW>;

template <class Tag>
struct RecChecking
{
    template <class Q, class L>
    [[noreturn]] static void out_of_range(const Q& k, std::size_t n, const L&) { raise_event(EV_OUT_OF_RANGE, (long)val(k), (long)n); }
    template <class L>
    [[noreturn]] static void length_error(std::size_t n, const L&) { raise_event(EV_LENGTH, (long)n); }
};

// heterogeneous probe
struct Het { int v; };
struct Wide { int v; };  // equivalent to every key with the same half
template <class T> constexpr int vv(const T& x) { if constexpr (std::is_same_v<T, Het>) return x.v; else return mc::val(x); }
#if defined(CMP_GREATER)
struct Cmp { template <class A, class B> constexpr bool operator()(const A& a, const B& b) const { return val(a) > val(b); } };
#define LESS(a, b, st) ((a) > (b))
#elif defined(CMP_TRANSPARENT)
struct Cmp { using is_transparent = void; template <class A, class B> constexpr bool operator()(const A& a, const B& b) const
    {
        if constexpr (std::is_same_v<A, Wide>) return a.v < vv(b) / 2;
        else if constexpr (std::is_same_v<B, Wide>) return vv(a) / 2 < b.v;
        else return vv(a) < vv(b);
    } };
#define LESS(a, b, st) ((a) < (b))
#elif defined(CMP_STATEFUL)
// the default state takes keys with the same half for equivalent, the other one is descending and tells all keys apart
struct Cmp { int dir = 0; template <class A, class B> constexpr bool operator()(const A& a, const B& b) const { return dir ? val(a) > val(b) : val(a) / 2 < val(b) / 2; } };
#define LESS(a, b, st) ((st) ? (a) > (b) : (a) / 2 < (b) / 2)
#define STATEFUL 1
#elif defined(CMP_COARSE)
struct Cmp { template <class A, class B> constexpr bool operator()(const A& a, const B& b) const { return val(a) / 2 < val(b) / 2; } };
#define LESS(a, b, st) ((a) / 2 < (b) / 2)
#else
using Cmp = std::less<GK>;
#define LESS(a, b, st) ((a) < (b))
#endif

#if defined(HASH_CONST)
struct Hash { std::uint64_t operator()(const GK&) const { return 0x1234; } };
#elif defined(HASH_MOD2)
struct Hash { std::uint64_t operator()(const GK& k) const { return (std::uint64_t)(val(k) % 2) << 8; } };
#elif defined(HASH_FP)   // one bucket, different fingerprints, not in key order
struct Hash { std::uint64_t operator()(const GK& k) const { return (std::uint64_t)((val(k) * 7) % 5) | 0x200; } };
#elif defined(HASH_STATEFUL)
// by default, keys with the same half are equal; with the other state they are told apart by Eq only
struct Hash { int salt = 0; std::uint64_t operator()(const GK& k) const { return salt ? 0x707 : (std::uint64_t)(val(k) / 2) * 0x101; } };
#define STATEFUL 1
#elif defined(HASH_COARSE)
struct Hash { std::uint64_t operator()(const GK& k) const { return (std::uint64_t)(val(k) / 2) << 8; } };
#elif defined(HASH_LAST)  // everything wants the last bucket: wraps around
struct Hash { std::uint64_t operator()(const GK& k) const { return ((std::uint64_t)(1000003 * 4 - 1 - val(k) % 2) << 8) | (std::uint64_t)val(k); } };
#elif defined(HASH_ID)
struct Hash { std::uint64_t operator()(const GK& k) const { return (std::uint64_t)val(k) * 0x101; } };
#else
using Hash = fc::wyhash::hash<GK>;
#endif
#if defined(HASH_COARSE)
struct Eq { bool operator()(const GK& a, const GK& b) const { return val(a) / 2 == val(b) / 2; } };
#define SAME(a, b, st) ((a) / 2 == (b) / 2)
#elif defined(HASH_STATEFUL)
struct Eq { int fine = 0; bool operator()(const GK& a, const GK& b) const { return fine ? val(a) == val(b) : val(a) / 2 == val(b) / 2; } };
#define SAME(a, b, st) ((st) ? (a) == (b) : (a) / 2 == (b) / 2)
#else
struct Eq { bool operator()(const GK& a, const GK& b) const { return val(a) == val(b); } };
#define SAME(a, b, st) ((a) == (b))
#endif
#ifndef STATEFUL
#define STATEFUL 0
#endif

#if defined(CONTIGUOUS)
#define STORAGE fc::FixedIndexBasedContiguousStorage
constexpr bool STABLE = false;
#else
#define STORAGE fc::FixedIndexBasedPoolStorage
constexpr bool STABLE = true;
#endif
#if defined(DEDICATED)
#define COLOR fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR
#else
#define COLOR fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR
#endif
#ifndef BUCKETS
// the default number of buckets, taken from the public template
template <class K_, class V_, std::size_t N_, class H_, class E_, std::size_t B_, class C_> constexpr std::size_t buckets_of(const fc::FixedUnorderedMap<K_, V_, N_, H_, E_, B_, C_>*) { return B_; }
#define BUCKETS(n) buckets_of(static_cast<const fc::FixedUnorderedMap<int, int, n>*>(nullptr))
#endif
#ifdef POLICY_ABORT
#define CHKM(n) fc::customize::MapAbortChecking<GK, GW, n>
#define CHKS(n) fc::customize::SetAbortChecking<GK, n>
#else
#define CHKM(n) RecChecking<GK>
#define CHKS(n) RecChecking<GK>
#endif
template <std::size_t N>
#if defined(KIND_MAP)
using CT = fc::FixedMap<GK, GW, N, Cmp, COLOR, STORAGE, CHKM(N)>;
#elif defined(KIND_SET)
using CT = fc::FixedSet<GK, N, Cmp, COLOR, STORAGE, CHKS(N)>;
#elif defined(KIND_UMAP)
using CT = fc::FixedUnorderedMap<GK, GW, N, Hash, Eq, BUCKETS(N), CHKM(N)>;
#else
using CT = fc::FixedUnorderedSet<GK, N, Hash, Eq, BUCKETS(N), CHKS(N)>;
#endif

struct Model
{
    std::vector<std::pair<int, int>> e;  // ordered: sorted by the comparator; unordered: insertion order
    int st = 0;                          // state of the comparator / hash
    bool operator==(const Model& o) const { return e == o.e; }
};
inline bool equiv(int a, int b, int st)
{
    (void)st;
    if constexpr (ORDERED) return !(LESS(a, b, st)) && !(LESS(b, a, st));
    else return SAME(a, b, st);
}
inline long m_find(const Model& m, int k)
{
    for (std::size_t i = 0; i < m.e.size(); ++i) if (equiv(m.e[i].first, k, m.st)) return (long)i;
    return -1;
}
inline bool m_insert(Model& m, int k, int v)
{
    if (m_find(m, k) >= 0) return false;
    if constexpr (ORDERED)
    {
        std::size_t i = 0;
        while (i < m.e.size() && (LESS(m.e[i].first, k, m.st))) ++i;
        m.e.insert(m.e.begin() + (long)i, {k, v});
    }
    else m.e.push_back({k, v});
    return true;
}

template <class C, class C2, class K, class W, bool MAP>
struct SysT
{
    using Sys = SysT;
    using M = Model;
    static constexpr bool KT = is_tracked<K>;
    static constexpr bool VT = MAP && is_tracked<W>;
    static constexpr bool TRACKED = KT || VT;
    static constexpr bool TRIVIAL = std::is_trivially_copyable_v<K> && (!MAP || std::is_trivially_copyable_v<W>);
    static constexpr bool RELOCATABLE = TRIVIAL;
    M model;
    std::vector<Op<Sys>> ops;
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }

    std::string ser(const M& m)
    {
        std::string o(1, (char)m.st);
        auto e = m.e;
        if constexpr (!ORDERED) std::sort(e.begin(), e.end());
        for (auto& [k, v] : e) { o += (char)k; if (MAP) o += (char)v; }
        return o;
    }
    M deser(const char* p, std::size_t n)
    {
        M m;
        m.st = p[0];
        for (std::size_t i = 1; i < n;) { int k = p[i++]; int v = MAP ? (int)p[i++] : 0; m.e.push_back({k, v}); }
        return m;
    }
    static std::string show(const M& m)
    {
        std::string o = "{";
        for (auto& [k, v] : m.e) o += std::to_string(k) + (MAP ? ":" + std::to_string(v) : "") + " ";
        return o + "}";
    }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    static K mk(int k) { return K(k); }
    static W mv(int v) { return W(v); }
    template <class X>
    static int kof(X&& x) { if constexpr (MAP) return val(x.first); else return val(x); }
    template <class X>
    static int vof(X&& x) { if constexpr (MAP) return val(x.second); else return 0; }
    template <class It>
    static const void* kaddr(It it) { if constexpr (MAP) return std::addressof(it->first); else return std::addressof(*it); }
    template <class It>
    static const void* vaddr(It it) { if constexpr (MAP) return std::addressof(it->second); else return nullptr; }

    static void build_at(int slot_no, int st)
    {
        (void)st;
#if defined(CMP_STATEFUL)
        if (st) R((void)new (slot(slot_no)) C(Cmp{st})); else R((void)new (slot(slot_no)) C());
#elif defined(HASH_STATEFUL)
        if (st) R((void)new (slot(slot_no)) C(Hash{st}, Eq{st})); else R((void)new (slot(slot_no)) C());
#else
        R((void)new (slot(slot_no)) C());
#endif
    }
    // Tree shape, colours and content; which pool entry holds which node is abstracted away (it is
    // explored exactly, by raw bytes, at the smaller capacities).
    template <class T>
    static std::string tree_key(T& t)
    {
        if constexpr (requires { t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.root_index()).left_index();
                                 t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).color() ? 1 : 0; t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).right_index(); t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_.node_at(0).key(); })
        {
            auto& tree = t.IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_;
            std::string o = "T";
            std::size_t budget = 4 * (CAP + 2);
            std::function<void(std::size_t)> rec = [&](std::size_t i)
            {
                if (i >= CAP || budget-- == 0) { o += '.'; return; }
                auto n = tree.node_at(i);
                o += (char)('A' + val(n.key()));
                o += n.color() ? 'b' : 'r';
                rec(n.left_index());
                rec(n.right_index());
            };
            rec(tree.root_index());
            return o;
        }
        else return std::string(reinterpret_cast<const char*>(slot(0)), g_slot_size);
    }
    std::string abs_key()
    {
        if constexpr (ORDERED) return tree_key(c());
        else return std::string(reinterpret_cast<const char*>(slot(0)), g_slot_size);
    }
    int root_count() { return STATEFUL ? 2 : 1; }
    std::string root_name(int k) { return k ? "constructed with a non-default comparator/hash state" : "default construction"; }
    void construct_root(int k)
    {
        build_at(0, k);
        model = M{};
        model.st = k;
    }
    // content in iteration order, bounded
    template <class X>
    static std::vector<std::pair<int, int>> contents(X& x)
    {
        std::vector<std::pair<int, int>> o;
        std::size_t guard = 0;
        for (auto it = x.begin(); it != x.end(); ++it)
        {
            if (++guard > CAP + 3) break;
            o.push_back({kof(*it), vof(*it)});
        }
        return o;
    }
    template <class X>
    static bool eqv(X& x, const M& m)
    {
        if (x.size() != m.e.size()) return false;
        auto a = contents(x);
        if constexpr (ORDERED) return a == m.e;
        auto b = m.e;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        return a == b;
    }
    auto it_at(long i) { return std::next(c().begin(), i); }
    auto cit_at(long i) { return std::next(std::as_const(c()).begin(), i); }
    auto it_key(int k)  // iterator to the element with key k by walking
    {
        auto it = c().begin();
        while (it != c().end() && !equiv(kof(*it), k, model.st)) ++it;
        return it;
    }
    // ---- identity of elements
    struct Id { int k; const void* ka; const void* va; typename C::iterator it; typename C::const_iterator cit; };
    std::vector<Id> ids;
    void stab_prepare()
    {
        ids.clear();
        for (auto it = c().begin(); it != c().end(); ++it) ids.push_back(Id{kof(*it), kaddr(it), vaddr(it), it, it});
    }
    void stab_check(const char* what)
    {
        if constexpr (STABLE)
        {
            for (auto& i : ids)
            {
                bool found = false;
                for (auto& x : model.e) if (x.first == i.k) found = true;
                if (!found) continue;
                auto it = it_key(i.k);
                if (it == c().end()) continue;
                MC_CHECK(kaddr(it) == i.ka && vaddr(it) == i.va, STAB, what, ": element with key ", i.k, " moved");
                MC_CHECK(i.it == it && i.cit == it, STAB, what, ": iterator to key ", i.k, " no longer denotes it");
                if (!(i.it == it)) continue;
                auto n = i.it;
                ++n;
                MC_CHECK(n == std::next(it), STAB | ITER, what, ": iterator kept across the operation continues wrongly");
            }
        }
    }
    // ---- observation
    void observe()
    {
        const C& x = c();
        C& y = c();
        const M& m = model;
        const auto n = m.e.size();
        MC_CHECK(R(x.size()) == n, SEM, "size() is ", (long)x.size(), " expected ", (long)n);
        MC_CHECK(R(x.empty()) == (n == 0), SEM, "empty()");
        MC_CHECK(R(x.max_size()) == CAP && C::static_max_size() == CAP, SEM, "max_size()");
        MC_CHECK(R(is_full(x)) == (n == CAP), SEM, "is_full()");
        if (x.size() != n) { g_diverged = true; return; }
        const bool same = eqv(x, m);
        MC_CHECK(same, SEM | ITER, "content by iteration differs from ", show(m));
        if (!same) { g_diverged = true; return; }
        const auto order = contents(x);
        if constexpr (TRACKED) MC_CHECK(g_live_count[0] == n * ((KT ? 1 : 0) + (VT ? 1 : 0)), LIFE, "live elements ", (long)g_live_count[0], " size ", (long)n);
        for (int k = 0; k <= NKEY + 1; ++k)
        {
            const K key = mk(k);
            const long at = m_find(m, k);
            MC_CHECK(R(x.contains(key)) == (at >= 0), SEM, "contains(", k, ")");
            MC_CHECK(R(x.count(key)) == (at >= 0 ? 1u : 0u), SEM, "count(", k, ")");
            probe(R(x.find(key)), R(y.find(key)), at >= 0 ? m.e[(std::size_t)at].first : -1, m, "find", k);
            if constexpr (MAP)
                if (at >= 0)
                {
                    MC_CHECK(val(R(x.at(key))) == m.e[(std::size_t)at].second, SEM, "at(", k, ") const");
                    MC_CHECK(std::addressof(y.at(key)) == std::addressof(x.at(key)), SEM, "at const/mutable differ");
                }
            bounds(key, k, at);
        }
        iterators(order);
        self_compare();
        if constexpr (TRIVIAL) relocation();
    }
    template <class CI, class I>
    void probe(CI ci, I i, int wantkey, const M&, const char* what, int k)
    {
        MC_CHECK(ci == i, SEM | ITER, what, "(", k, ") const and mutable differ");
        if (wantkey < 0)
        {
            MC_CHECK(ci == std::as_const(c()).end() && i == c().end(), SEM, what, "(", k, ") should be end()");
            return;
        }
        MC_CHECK(!(ci == std::as_const(c()).end()), SEM, what, "(", k, ") is end()");
        if (ci == std::as_const(c()).end()) return;
        MC_CHECK(kof(*ci) == wantkey && kof(*i) == wantkey, SEM, what, "(", k, ") finds another key");
        MC_CHECK(ci == std::as_const(c()).begin() || true, SEM, "");
        auto walk = it_key(wantkey);
        MC_CHECK(walk == i, SEM | ITER, what, "(", k, ") is not the position reached by iteration");
        auto a = i;
        ++a;
        auto b = walk;
        ++b;
        MC_CHECK(a == b, SEM | ITER, what, "(", k, "): iteration from the found position");
    }
    template <class Q>
    void bounds(const Q& key, int k, long at)
    {
        if constexpr (ORDERED)
        {
            const C& x = c();
            C& y = c();
            const M& m = model;
            std::size_t lo = 0;
            while (lo < m.e.size() && (LESS(m.e[lo].first, k, m.st))) ++lo;
            std::size_t hi = lo + (at >= 0 ? 1 : 0);
            auto keyat = [&](std::size_t i) { return i < m.e.size() ? m.e[i].first : -1; };
            probe(R(x.lower_bound(key)), R(y.lower_bound(key)), keyat(lo), m, "lower_bound", k);
            probe(R(x.upper_bound(key)), R(y.upper_bound(key)), keyat(hi), m, "upper_bound", k);
            auto e1 = R(x.equal_range(key));
            auto e2 = R(y.equal_range(key));
            probe(e1.first, e2.first, keyat(lo), m, "equal_range.first", k);
            probe(e1.second, e2.second, keyat(hi), m, "equal_range.second", k);
#if defined(CMP_TRANSPARENT)
            const Het h{k};
            probe(R(x.find(h)), R(y.find(h)), at >= 0 ? m.e[(std::size_t)at].first : -1, m, "find(het)", k);
            MC_CHECK(R(x.contains(h)) == (at >= 0), SEM, "contains(het ", k, ")");
            MC_CHECK(R(x.count(h)) == (at >= 0 ? 1u : 0u), SEM, "count(het ", k, ")");
            probe(R(x.lower_bound(h)), R(y.lower_bound(h)), keyat(lo), m, "lower_bound(het)", k);
            probe(R(x.upper_bound(h)), R(y.upper_bound(h)), keyat(hi), m, "upper_bound(het)", k);
            auto h1 = R(x.equal_range(h));
            auto h2 = R(y.equal_range(h));
            probe(h1.first, h2.first, keyat(lo), m, "equal_range(het).first", k);
            probe(h1.second, h2.second, keyat(hi), m, "equal_range(het).second", k);
            // a probe that is equivalent to several keys
            const Wide w{k};
            std::size_t l = 0;
            while (l < m.e.size() && m.e[l].first / 2 < k) ++l;
            std::size_t u = l;
            while (u < m.e.size() && m.e[u].first / 2 == k) ++u;
            MC_CHECK(R(x.contains(w)) == (u > l), SEM, "contains(wide ", k, ")");
            MC_CHECK(R(x.count(w)) == u - l, SEM, "count(wide ", k, ")");
            probe(R(x.lower_bound(w)), R(y.lower_bound(w)), keyat(l), m, "lower_bound(wide)", k);
            probe(R(x.upper_bound(w)), R(y.upper_bound(w)), keyat(u), m, "upper_bound(wide)", k);
            auto w1 = R(x.equal_range(w));
            auto w2 = R(y.equal_range(w));
            probe(w1.first, w2.first, keyat(l), m, "equal_range(wide).first", k);
            probe(w1.second, w2.second, keyat(u), m, "equal_range(wide).second", k);
            auto f1 = R(x.find(w));
            auto f2 = R(y.find(w));
            MC_CHECK(f1 == f2, SEM, "find(wide) const and mutable differ");
            if (u == l) MC_CHECK(f1 == x.end(), SEM, "find(wide) of a missing key");
            else
            {
                MC_CHECK(!(f1 == x.end()), SEM, "find(wide) misses");
                if (!(f1 == x.end())) probe(f1, f2, kof(*f1) / 2 == k ? kof(*f1) : keyat(l), m, "find(wide)", k);
            }
#endif
        }
    }
    template <class B, class En>
    void seq_check(B b, En en, const std::vector<std::pair<int, int>>& want, const char* what)
    {
        std::size_t i = 0;
        for (auto it = b; it != en; ++it, ++i)
        {
            if (i >= want.size()) { MC_CHECK(false, ITER | SEM, what, ": visits too many elements"); return; }
            MC_CHECK(kof(*it) == want[i].first && vof(*it) == want[i].second, ITER | SEM, what, ": element ", (long)i);
            if constexpr (MAP) MC_CHECK(std::addressof(it->first) == std::addressof((*it).first) && std::addressof(it->second) == std::addressof((*it).second), ITER, what, ": ->");
            auto p = it;
            auto q = p++;
            MC_CHECK(q == it && p == std::next(it), ITER, what, ": post-increment");
        }
        MC_CHECK(i == want.size(), ITER | SEM, what, ": visits too few elements");
        if constexpr (ORDERED)
        {
            auto it = en;
            for (i = want.size(); i-- > 0;)
            {
                auto q = it--;
                MC_CHECK(q == std::next(it), ITER, what, ": post-decrement");
                MC_CHECK(kof(*it) == want[i].first && vof(*it) == want[i].second, ITER | SEM, what, ": going back, element ", (long)i);
            }
            MC_CHECK(it == b, ITER | SEM, what, ": going back does not reach the start");
        }
    }
    // a mutable and a const iterator of the same container, every pair of positions
    template <class Mu, class Co>
    void mixed(Mu a, const Co cb, long n, const char* what)
    {
        for (long i = 0; i <= n; ++i)
        {
            const Co ca = a;
            Co z = cb;
            for (long j = 0; j <= n; ++j)
            {
                MC_CHECK((a == z) == (i == j) && (z == a) == (i == j) && (a != z) == (i != j) && (z != a) == (i != j), ITER, what, " equality at ", i, ", ", j);
                MC_CHECK((ca == z) == (i == j) && (ca != z) == (i != j), ITER, what, " equality of const iterators at ", i, ", ", j);
                if (j < n) ++z;
            }
            if (i < n) ++a;
        }
    }
    void iterators(const std::vector<std::pair<int, int>>& order)
    {
        C& y = c();
        const C& x = y;
        const std::vector<std::pair<int, int>> rev(order.rbegin(), order.rend());
        RealScope rs;
        seq_check(y.begin(), y.end(), order, "begin/end");
        seq_check(x.begin(), x.end(), order, "const begin/end");
        seq_check(x.cbegin(), x.cend(), order, "cbegin/cend");
        using CI = typename C::const_iterator;
        long i = 0;
        const long n = (long)order.size();
        for (auto it = y.begin();; ++it, ++i)
        {
            CI ci = it;
            MC_CHECK(ci == it && it == ci, ITER, "const conversion changes the position ", i);
            MC_CHECK(ci == std::next(x.cbegin(), i), ITER, "const conversion differs from cbegin()+", i);
            if (i < n) MC_CHECK(kaddr(ci) == kaddr(it) && vaddr(ci) == vaddr(it), ITER, "const conversion denotes another element");
            CI cj;
            cj = it;
            MC_CHECK(cj == ci, ITER, "assignment of iterator to const_iterator");
            if (i == n) break;
        }
        MC_CHECK(value_initialised_ok(y.begin()) && value_initialised_ok(x.cbegin()), ITER, "value-initialised iterators");
        mixed(y.begin(), x.cbegin(), n, "iterator/const_iterator");
        if constexpr (ORDERED)
        {
            MC_CHECK(value_initialised_ok(y.rbegin()) && value_initialised_ok(x.crbegin()), ITER, "value-initialised reverse iterators");
            mixed(y.rbegin(), x.crbegin(), n, "reverse_iterator/const_reverse_iterator");
            seq_check(y.rbegin(), y.rend(), rev, "rbegin/rend");
            seq_check(x.rbegin(), x.rend(), rev, "const rbegin/rend");
            seq_check(x.crbegin(), x.crend(), rev, "crbegin/crend");
            using CRI = typename C::const_reverse_iterator;
            i = 0;
            for (auto it = y.rbegin();; ++it, ++i)
            {
                CRI ci = it;
                MC_CHECK(ci == std::next(x.crbegin(), i), ITER, "const conversion of reverse iterator moves, position ", i);
                MC_CHECK(it.base() == std::next(y.begin(), n - i), ITER, "base() at reverse position ", i);
                MC_CHECK(ci.base() == std::next(x.cbegin(), n - i), ITER, "const base() at reverse position ", i);
                if (i < n) MC_CHECK(kof(*ci) == rev[(std::size_t)i].first, ITER, "reverse value at ", i);
                if (i == n) break;
            }
        }
    }
    void self_compare()
    {
        const C& x = c();
        MC_CHECK(R(x == x), CMP, "x == x");
        MC_CHECK(!R(x != x), CMP, "x != x");
        if constexpr (COPYABLE && !STATEFUL)
        {
            // every other content that differs in one entry, in a container of another capacity, built in reverse order
            auto other = [&](const M& w, bool eq)
            {
                C2 z;
                for (std::size_t i = w.e.size(); i-- > 0;)
                {
                    if constexpr (MAP) z.try_emplace(mk(w.e[i].first), mv(w.e[i].second));
                    else z.insert(mk(w.e[i].first));
                }
                MC_CHECK((R(x == z)) == eq, CMP, "== with another capacity ", show(w));
                MC_CHECK((R(z == x)) == eq, CMP, "== with another capacity (reversed) ", show(w));
                MC_CHECK((R(x != z)) == !eq, CMP, "!= with another capacity ", show(w));
#if defined(KIND_SET)
                std::vector<int> a, b;
                for (auto& q : model.e) a.push_back(q.first);
                for (auto& q : w.e) b.push_back(q.first);
                const auto want = a <=> b;
                MC_CHECK((R(x <=> z)) == want, CMP, "<=> with another capacity ", show(w));
                MC_CHECK((R(x < z)) == (want < 0) && (R(x > z)) == (want > 0) && (R(x <= z)) == (want <= 0) && (R(x >= z)) == (want >= 0), CMP, "ordering with another capacity ", show(w));
#endif
            };
            other(model, true);
            for (int k = 1; k <= NKEY; ++k)
            {
                M w = model;
                const long at = m_find(w, k);
                if (at >= 0)
                {
                    w.e.erase(w.e.begin() + at);
                    other(w, false);
                    if (MAP) { w = model; w.e[(std::size_t)at].second += 1; other(w, false); }
                    // same size, another key
                    for (int j = 1; j <= NKEY; ++j)
                        if (m_find(model, j) < 0) { M u = model; u.e.erase(u.e.begin() + at); m_insert(u, j, 1); other(u, false); break; }
                }
                else { m_insert(w, k, 1); other(w, false); }
            }
        }
    }
    void relocation()
    {
        MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "container of trivially copyable elements is not trivially copyable");
        std::string keep(reinterpret_cast<char*>(slot(0)), g_slot_size);
        std::memcpy(slot(1), slot(0), g_slot_size);
        std::memset(slot(0), 0x5A, g_slot_size);
        const C& r = d();
        bool ok = eqv(r, model);
        for (int k = 0; k <= NKEY + 1; ++k) ok = ok && R(r.contains(mk(k))) == (m_find(model, k) >= 0);
        std::memcpy(slot(0), keep.data(), g_slot_size);
        MC_CHECK(ok, RELOC, "byte-relocated container differs");
        MC_CHECK(R(r == std::as_const(c())), RELOC | CMP, "byte-relocated container != original");
        wipe_slot(1);
    }

    // ---- alphabet
    bool full_for(int k) { return model.e.size() == CAP && m_find(model, k) < 0; }
    void pre_insert(int k)
    {
        if (full_for(k)) expect_err(EV_LENGTH, CAP + 1);
        stab_prepare();
    }
    template <class RR>
    void post_insert(RR r, int k, int v, const char* what)
    {
        if (g_expect.err) return;
        const bool ins = m_insert(model, k, v);
        MC_CHECK(r.second == ins, SEM, what, "(", k, ") returned inserted=", (long)r.second);
        check_at(r.first, k, what);
    }
    template <class It>
    void check_at(It it, int k, const char* what)
    {
        auto w = it_key(k);
        MC_CHECK(!(w == c().end()), SEM, what, "(", k, "): key is not there afterwards");
        MC_CHECK(it == w, SEM, what, "(", k, ") returned another position");
        stab_check(what);
    }
    void build()
    {
        for (int k = 1; k <= NKEY; ++k)
        {
            if constexpr (!MAP)
            {
                if constexpr (KCOPY)
                    op(cat_str("insert(const&", k, ")"), [k](Sys& s) { const K key = mk(k); s.pre_insert(k); auto r = R(s.c().insert(key)); s.post_insert(r, k, 0, "insert"); MC_CHECK(val(key) == k, SEM, "insert changed its argument"); return true; });
                op(cat_str("insert(&&", k, ")"), [k](Sys& s) { s.pre_insert(k); auto r = R(s.c().insert(mk(k))); s.post_insert(r, k, 0, "insert(&&)"); return true; });
                op(cat_str("emplace(", k, ")"), [k](Sys& s) { s.pre_insert(k); auto r = R(s.c().emplace(k)); s.post_insert(r, k, 0, "emplace"); return true; });
                if constexpr (KCOPY)
                    op(cat_str("insert(hint,const&", k, ")"), [k](Sys& s) { const K key = mk(k); s.pre_insert(k); auto it = R(s.c().insert(s.c().cbegin(), key)); if (g_expect.err) return true; m_insert(s.model, k, 0); s.check_at(it, k, "insert(hint)"); return true; });
                op(cat_str("insert(hint,&&", k, ")"), [k](Sys& s) { s.pre_insert(k); auto it = R(s.c().insert(s.c().cend(), mk(k))); if (g_expect.err) return true; m_insert(s.model, k, 0); s.check_at(it, k, "insert(hint,&&)"); return true; });
                op(cat_str("emplace_hint(", k, ")"), [k](Sys& s)
                {
                    s.pre_insert(k);
                    auto r = R(s.c().emplace_hint(s.c().cend(), k));
                    if (g_expect.err) return true;
                    m_insert(s.model, k, 0);
                    if constexpr (requires { r.first; }) s.check_at(r.first, k, "emplace_hint"); else s.check_at(r, k, "emplace_hint");
                    return true;
                });
#if defined(KIND_USET)
                if constexpr (KCOPY)
                    op(cat_str("try_emplace(const&", k, ")"), [k](Sys& s) { const K key = mk(k); s.pre_insert(k); auto r = R(s.c().try_emplace(key)); s.post_insert(r, k, 0, "try_emplace"); return true; });
                op(cat_str("try_emplace(&&", k, ")"), [k](Sys& s) { s.pre_insert(k); auto r = R(s.c().try_emplace(s.c().cend(), mk(k))); s.post_insert(r, k, 0, "try_emplace(hint)"); return true; });
#endif
            }
            else
            {
                for (int v = 1; v <= NVALS; ++v)
                {
                    using VT_ = std::pair<const K, W>;
                    if constexpr (COPYABLE)
                        op(cat_str("insert(const&{", k, ",", v, "})"), [=](Sys& s) { const VT_ p(mk(k), mv(v)); s.pre_insert(k); auto r = R(s.c().insert(p)); s.post_insert(r, k, v, "insert"); MC_CHECK(val(p.first) == k && val(p.second) == v, SEM, "insert changed its argument"); return true; });
                    if constexpr (KCOPY)
                        op(cat_str("insert(&&{", k, ",", v, "})"), [=](Sys& s) { s.pre_insert(k); auto r = R(s.c().insert(VT_(mk(k), mv(v)))); s.post_insert(r, k, v, "insert(&&)"); return true; });
                    auto ioa = [](Sys& s, auto r, int k, int v, const char* what)
                    {
                        if (g_expect.err) return;
                        const long at = m_find(s.model, k);
                        const bool ins = at < 0;
                        if (at >= 0) s.model.e[(std::size_t)at].second = v;
                        else m_insert(s.model, k, v);
                        if constexpr (requires { r.second; })
                        {
                            MC_CHECK(r.second == ins, SEM, what, "(", k, ") returned inserted=", (long)r.second);
                            s.check_at(r.first, k, what);
                        }
                        else s.check_at(r, k, what);
                    };
                    if constexpr (KCOPY)
                        op(cat_str("insert_or_assign(const&", k, ",", v, ")"), [=](Sys& s) { const K key = mk(k); s.pre_insert(k); auto r = R(s.c().insert_or_assign(key, mv(v))); ioa(s, r, k, v, "insert_or_assign"); return true; });
                    op(cat_str("insert_or_assign(&&", k, ",", v, ")"), [=](Sys& s) { s.pre_insert(k); auto r = R(s.c().insert_or_assign(mk(k), mv(v))); ioa(s, r, k, v, "insert_or_assign(&&)"); return true; });
                    if (v == NVALS)
                    {
                        if constexpr (KCOPY && WCOPY)
                            op(cat_str("insert_or_assign(hint,const&", k, ",const&", v, ")"), [=](Sys& s) { const K key = mk(k); const W w = mv(v); s.pre_insert(k); auto it = R(s.c().insert_or_assign(typename C::const_iterator(s.c().begin()), key, w)); ioa(s, it, k, v, "insert_or_assign(hint)"); MC_CHECK(val(w) == v, SEM, "insert_or_assign changed its argument"); return true; });
                        op(cat_str("insert_or_assign(hint,&&", k, ",", v, ")"), [=](Sys& s) { s.pre_insert(k); auto it = R(s.c().insert_or_assign(typename C::const_iterator(s.c().end()), mk(k), mv(v))); ioa(s, it, k, v, "insert_or_assign(hint,&&)"); return true; });
                        if constexpr (KCOPY)
                            op(cat_str("try_emplace(const&", k, ",", v, ")"), [=](Sys& s) { const K key = mk(k); s.pre_insert(k); auto r = R(s.c().try_emplace(key, v)); s.post_insert(r, k, v, "try_emplace"); return true; });
                        op(cat_str("try_emplace(&&", k, ",", v, ")"), [=](Sys& s) { K key = mk(k); W w = mv(v); const bool had = m_find(s.model, k) >= 0; s.pre_insert(k); auto r = R(s.c().try_emplace(std::move(key), std::move(w))); s.post_insert(r, k, v, "try_emplace(&&)"); if (had) MC_CHECK(val(key) == k && val(w) == v, SEM, "try_emplace moved from its arguments although nothing was inserted"); return true; });
                        op(cat_str("try_emplace(hint,", k, ",", v, ")"), [=](Sys& s) { s.pre_insert(k); auto r = R(s.c().try_emplace(typename C::const_iterator(s.c().begin()), mk(k), v)); s.post_insert(r, k, v, "try_emplace(hint)"); return true; });
                        if constexpr (KCOPY)
                            op(cat_str("emplace(", k, ",", v, ")"), [=](Sys& s) { const K key = mk(k); s.pre_insert(k); auto r = R(s.c().emplace(key, v)); s.post_insert(r, k, v, "emplace"); return true; });
                        if constexpr (COPYABLE)
                        {
                            op(cat_str("emplace(pair{", k, ",", v, "})"), [=](Sys& s) { const std::pair<K, W> p(mk(k), mv(v)); s.pre_insert(k); auto r = R(s.c().emplace(p)); s.post_insert(r, k, v, "emplace(pair)"); MC_CHECK(val(p.first) == k && val(p.second) == v, SEM, "emplace changed its argument"); return true; });
                            op(cat_str("emplace(piecewise ", k, ",", v, ")"), [=](Sys& s) { s.pre_insert(k); auto r = R(s.c().emplace(std::piecewise_construct, std::make_tuple(mk(k)), std::make_tuple(v))); s.post_insert(r, k, v, "emplace(piecewise)"); return true; });
                        }
                        op(cat_str("emplace_hint(", k, ",", v, ")"), [=](Sys& s) { s.pre_insert(k); auto r = R(s.c().emplace_hint(typename C::const_iterator(s.c().end()), mk(k), mv(v))); if (g_expect.err) return true; s.post_insert(r, k, v, "emplace_hint"); return true; });
                    }
                    op(cat_str("at(", k, ")=", v), [=](Sys& s)
                    {
                        const long at = m_find(s.model, k);
                        if (at < 0) { if (v > 1) return false; expect_err(EV_OUT_OF_RANGE, k, (long)s.model.e.size()); }
                        const K key = mk(k);
                        R(s.c().at(key)) = mv(v);
                        if (at >= 0) s.model.e[(std::size_t)at].second = v;
                        return true;
                    });
                    if constexpr (WDEF)
                        op(cat_str("[&&", k, "]=", v), [=](Sys& s)
                        {
                            s.pre_insert(k);
                            R(s.c()[mk(k)]) = mv(v);
                            if (g_expect.err) return true;
                            const long at = m_find(s.model, k);
                            if (at >= 0) s.model.e[(std::size_t)at].second = v; else m_insert(s.model, k, v);
                            s.stab_check("[]");
                            return true;
                        });
                    op(cat_str("find(", k, ")->second=", v), [=](Sys& s)
                    {
                        const long at = m_find(s.model, k);
                        if (at < 0) return false;
                        const K key = mk(k);
                        s.c().find(key)->second = mv(v);
                        s.model.e[(std::size_t)at].second = v;
                        return true;
                    });
                }
                op(cat_str("at(", k, ") const missing"), [=](Sys& s)
                {
                    if (m_find(s.model, k) >= 0) return false;
                    expect_err(EV_OUT_OF_RANGE, k, (long)s.model.e.size());
                    const K key = mk(k);
                    (void)R(std::as_const(s.c()).at(key));
                    return true;
                });
                if constexpr (WDEF && KCOPY)
                    op(cat_str("[const&", k, "]"), [=](Sys& s)
                    {
                        const K key = mk(k);
                        s.pre_insert(k);
                        W& w = R(s.c()[key]);
                        if (g_expect.err) return true;
                        m_insert(s.model, k, 0);
                        const std::size_t at = (std::size_t)m_find(s.model, k);
                        MC_CHECK(val(w) == s.model.e[at].second, SEM, "operator[] value");
                        if (CAP > 4) { w = mv(1); s.model.e[at].second = 1; }
                        s.stab_check("[]");
                        return true;
                    });
                // arguments that refer to the container's own content
                if constexpr (WCOPY)
                    for (int j = 1; j <= NKEY; ++j)
                    {
                        if (j == k) continue;
                        op(cat_str("try_emplace(", k, ", own value of ", j, ")"), [=](Sys& s)
                        {
                            const long at = m_find(s.model, j);
                            if (at < 0 || s.full_for(k)) return false;
                            const int v = s.model.e[(std::size_t)at].second;
                            s.stab_prepare();
                            auto r = R(s.c().try_emplace(mk(k), std::as_const(s.it_key(j)->second)));
                            s.post_insert(r, k, v, "try_emplace(own value)");
                            return true;
                        });
                        if (j == (k % NKEY) + 1)
                            op(cat_str("insert_or_assign(", k, ", own value of ", j, ")"), [=](Sys& s)
                            {
                                const long at = m_find(s.model, j);
                                if (at < 0 || s.full_for(k)) return false;
                                const int v = s.model.e[(std::size_t)at].second;
                                s.stab_prepare();
                                (void)R(s.c().insert_or_assign(mk(k), std::as_const(s.it_key(j)->second)));
                                const long ak = m_find(s.model, k);
                                if (ak >= 0) s.model.e[(std::size_t)ak].second = v; else m_insert(s.model, k, v);
                                s.stab_check("insert_or_assign(own value)");
                                return true;
                            });
                    }
            }
            op(cat_str("erase(key ", k, ")"), [=](Sys& s)
            {
                const K key = mk(k);
                const auto before = contents(s.c());
                s.stab_prepare();
                auto r = R(s.c().erase(key));
                const long at = m_find(s.model, k);
                MC_CHECK(r == (at >= 0 ? 1u : 0u), SEM, "erase(key) returned ", (long)r);
                if (at >= 0) s.model.e.erase(s.model.e.begin() + at);
                s.order_kept(before, "erase(key)");
                s.stab_check("erase(key)");
                return true;
            });
            op(cat_str("erase(own key ", k, ")"), [=](Sys& s)
            {
                const long at = m_find(s.model, k);
                if (at < 0) return false;
                auto it = s.it_key(k);
                const K* own;
                if constexpr (MAP) own = std::addressof(it->first); else own = std::addressof(*it);
                s.stab_prepare();
                auto r = R(s.c().erase(*own));
                MC_CHECK(r == 1u, SEM, "erase(own key) returned ", (long)r);
                s.model.e.erase(s.model.e.begin() + at);
                s.stab_check("erase(own key)");
                return true;
            });
        }
        // positions
        for (long p = 0; p <= (long)CAP; ++p)
        {
            op(cat_str("erase(const_iterator at ", p, ")"), [=](Sys& s) { return s.erase_at(p, true); });
            op(cat_str("erase(iterator at ", p, ")"), [=](Sys& s) { return s.erase_at(p, false); });
            for (long q = p; q <= (long)CAP; ++q)
                op(cat_str("erase(", p, ",", q, ")"), [=](Sys& s)
                {
                    const long n = (long)s.model.e.size();
                    if (q > n) return false;
                    const auto before = contents(s.c());
                    s.stab_prepare();
                    auto it = R(s.c().erase(s.cit_at(p), s.cit_at(q)));
                    for (long i = p; i < q; ++i) s.m_drop(before[(std::size_t)i].first);
                    s.order_kept(before, "erase(range)");
                    s.cont_check(it, before, q, "erase(range)");
                    s.stab_check("erase(range)");
                    return true;
                });
        }
        op("clear()", [](Sys& s) { R(s.c().clear()); s.model.e.clear(); return true; });
        for (int k = 0; k < 5; ++k)
            op(cat_str("erase_if(", k == 0 ? "none" : k == 1 ? "all" : k == 2 ? "odd key" : k == 3 ? "even key" : "value/key is first", ")"), [=](Sys& s)
            {
                const auto before = contents(s.c());
                const int first = before.empty() ? 0 : before[0].first;
                auto pr = [=](int x) { return k == 0 ? false : k == 1 ? true : k == 2 ? (x % 2 != 0) : k == 3 ? (x % 2 == 0) : x == first; };
                s.stab_prepare();
                auto r = R(fc::erase_if(s.c(), [=](const auto& e) { return pr(kof(e)); }));
                const auto w = std::erase_if(s.model.e, [=](auto& e) { return pr(e.first); });
                MC_CHECK(r == w, SEM, "erase_if returned ", (long)r, " expected ", (long)w);
                s.order_kept(before, "erase_if");
                s.stab_check("erase_if");
                return true;
            });
        ranges();
        copies();
    }
    void m_drop(int key)
    {
        for (std::size_t i = 0; i < model.e.size(); ++i) if (model.e[i].first == key) { model.e.erase(model.e.begin() + (long)i); return; }
    }
    // erasure keeps the relative order of the others
    void order_kept(const std::vector<std::pair<int, int>>& before, const char* what)
    {
        auto a = contents(c());
        std::vector<std::pair<int, int>> w;
        for (auto& x : before) if (m_find(model, x.first) >= 0) w.push_back(x);
        MC_CHECK(a == w, SEM | STAB, what, ": the remaining elements or their order changed");
    }
    // the returned iterator continues with before[q..]
    template <class It>
    void cont_check(It it, const std::vector<std::pair<int, int>>& before, long q, const char* what)
    {
        for (std::size_t i = (std::size_t)q; i < before.size(); ++i, ++it)
        {
            MC_CHECK(!(it == c().end()), SEM | STAB | ITER, what, ": returned position ends too early");
            if (it == c().end()) return;
            MC_CHECK(kof(*it) == before[i].first, SEM | STAB | ITER, what, ": iteration from the returned position visits ", kof(*it), " instead of ", before[i].first);
        }
        MC_CHECK(it == c().end(), SEM | STAB | ITER, what, ": iteration from the returned position does not end");
    }
    bool erase_at(long p, bool cst)
    {
        const long n = (long)model.e.size();
        if (p > n) return false;
        if (p == n) { expect_err(EV_ABORT); if (cst) (void)R(c().erase(cit_at(p))); else (void)R(c().erase(it_at(p))); return true; }
        const auto before = contents(c());
        stab_prepare();
        auto it = cst ? R(c().erase(cit_at(p))) : R(c().erase(it_at(p)));
        m_drop(before[(std::size_t)p].first);
        order_kept(before, "erase(position)");
        cont_check(it, before, p + 1, "erase(position)");
        stab_check("erase(position)");
        return true;
    }
    // Input iterator over (key,value) ints
    struct PIt
    {
        using value_type = std::conditional_t<MAP, std::pair<const K, W>, K>;
        using difference_type = std::ptrdiff_t;
        using pointer = const value_type*;
        using reference = value_type;
        using iterator_category = std::input_iterator_tag;
        const std::pair<int, int>* p = nullptr;
        value_type operator*() const { if constexpr (MAP) return value_type(mk(p->first), mv(p->second)); else return mk(p->first); }
        PIt& operator++() { ++p; return *this; }
        PIt operator++(int) { PIt t = *this; ++p; return t; }
        friend bool operator==(const PIt& a, const PIt& b) { return a.p == b.p; }
    };
    void ranges()
    {
        if constexpr (!MAP || KCOPY)
        {
            using L = std::vector<std::pair<int, int>>;
            static const L pats[] = {{}, {{2, 1}}, {{3, 1}, {1, 1}}, {{1, 1}, {1, 2}, {2, 1}}, {{4, 1}, {3, 1}, {2, 1}, {1, 1}}, {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}}};
            for (int i = 0; i < 6; ++i)
            {
                const L* pw = &pats[i];
                auto apply = [=](M m, bool& over)
                {
                    over = false;
                    for (auto& [k, v] : *pw)
                    {
                        if (m_find(m, k) >= 0) continue;
                        if (m.e.size() == CAP) { over = true; return m; }
                        m_insert(m, k, MAP ? v : 0);
                    }
                    return m;
                };
                op(cat_str("insert(range #", i, ")"), [=](Sys& s)
                {
                    bool over;
                    M m = apply(s.model, over);
                    if (over) expect_err(EV_LENGTH, CAP + 1);
                    s.stab_prepare();
                    R(s.c().insert(PIt{pw->data()}, PIt{pw->data() + pw->size()}));
                    s.model = m;
                    s.stab_check("insert(range)");
                    return true;
                });
                op(cat_str("construct(range #", i, ")"), [=](Sys& s)
                {
                    bool over;
                    M e;
                    M m = apply(e, over);
                    if (over) expect_err(EV_LENGTH, CAP + 1);
                    R(s.c().~C());
                    wipe_slot(0);
                    R((void)new (slot(0)) C(PIt{pw->data()}, PIt{pw->data() + pw->size()}));
                    s.model = m;
                    return true;
                });
                if constexpr (COPYABLE)
                    if (i == 3)
                    {
                        op("insert(ilist #3)", [=](Sys& s)
                        {
                            bool over;
                            M m = apply(s.model, over);
                            if (over) expect_err(EV_LENGTH, CAP + 1);
                            if constexpr (MAP) R(s.c().insert({{mk(1), mv(1)}, {mk(1), mv(2)}, {mk(2), mv(1)}}));
                            else R(s.c().insert({mk(1), mk(1), mk(2)}));
                            s.model = m;
                            return true;
                        });
                        op("construct(ilist #3)", [=](Sys& s)
                        {
                            bool over;
                            M e;
                            M m = apply(e, over);
                            if (over) expect_err(EV_LENGTH, CAP + 1);
                            R(s.c().~C());
                            wipe_slot(0);
                            if constexpr (MAP) R((void)new (slot(0)) C({{mk(1), mv(1)}, {mk(1), mv(2)}, {mk(2), mv(1)}}));
                            else R((void)new (slot(0)) C({mk(1), mk(1), mk(2)}));
                            s.model = m;
                            return true;
                        });
                    }
            }
        }
    }
    void kill(int i)
    {
        R(reinterpret_cast<C*>(slot(i))->~C());
        MC_CHECK(!TRACKED || g_live_count[i] == 0, LIFE, "destructor left ", (long)g_live_count[i], " elements alive");
        wipe_slot(i);
    }
    static bool put(C& x, M& m, int k, int v)
    {
        if (m_find(m, k) < 0 && m.e.size() == CAP) return false;
        if constexpr (MAP) R((void)x.try_emplace(mk(k), mv(v))); else R((void)x.insert(mk(k)));
        m_insert(m, k, MAP ? v : 0);
        return true;
    }
    static bool lookups(C& x, const M& m)
    {
        if (!eqv(x, m)) return false;
        for (int k = 0; k <= NKEY + 1; ++k) if (R(x.contains(mk(k))) != (m_find(m, k) >= 0)) return false;
        return true;
    }
    // exercise a container that must be functional and hold m
    void poke(C& x, const M& m0, const char* what)
    {
        M m = m0;
        MC_CHECK(lookups(x, m), COPY | SEM, what, ": content differs, expected ", show(m));
        if (!lookups(x, m)) return;
        for (int k = NKEY; k >= 1; --k) put(x, m, k, 1);
        MC_CHECK(lookups(x, m), COPY | SEM, what, ": broken after filling it");
        for (int k = 1; k <= NKEY; k += 2)
        {
            const K key = mk(k);
            R((void)x.erase(key));
            const long at = m_find(m, k);
            if (at >= 0) m.e.erase(m.e.begin() + at);
        }
        MC_CHECK(lookups(x, m), COPY | SEM, what, ": broken after erasing from it");
        for (int k = 1; k <= NKEY; ++k) put(x, m, k, 1);
        MC_CHECK(lookups(x, m), COPY | SEM, what, ": broken after filling it again");
    }
    void valid_after_move(C& x, const M& like, const char* what)
    {
        MC_CHECK(x.size() <= CAP, COPY, what, ": moved-from size");
        std::size_t n = 0;
        for (auto it = x.begin(); it != x.end() && n <= CAP; ++it) ++n;
        MC_CHECK(n == x.size(), COPY, what, ": moved-from iteration");
        R(x.clear());
        MC_CHECK(x.empty() && x.begin() == x.end(), COPY, what, ": moved-from not clearable");
        M m;
        m.st = like.st;
        poke(x, m, what);
    }
    void preset(int k, C& x, M& w)
    {
        if (k == 1) put(x, w, 2, 1);
        if (k == 2) for (int j = NKEY; j >= 1; --j) put(x, w, j, 1);
        if (k == 3)
        {
            for (int j = 1; j <= NKEY; ++j) put(x, w, j, 1);
            const K key = mk(2);
            R((void)x.erase(key));
            const long at = m_find(w, 2);
            if (at >= 0) w.e.erase(w.e.begin() + at);
        }
    }
    void copies()
    {
        if constexpr (COPYABLE)
        {
            op("copy-construct, use the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "copying changed the source");
                MC_CHECK(R(s.c() == s.d()), COPY | CMP, "copy != original");
                s.poke(s.d(), s.model, "copy");
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source");
                s.kill(1);
                MC_CHECK(lookups(s.c(), s.model), COPY | SEM, "destroying the copy changed the source");
                return true;
            });
            op("copy-construct, continue with the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                s.kill(0);
                R((void)new (slot(0)) C(std::as_const(s.d())));
                s.kill(1);
                return true;
            });
            op("self copy-assign", [](Sys& s) { C& a = s.c(); const C& b = s.c(); C& r = R(a = b); MC_CHECK(&r == &a, COPY | SEM, "operator= must return *this"); return true; });
        }
        op("self move-assign", [](Sys& s) { C& a = s.c(); C& b = s.c(); R((void)(a = std::move(b))); return true; });
        op("move-construct there and back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(lookups(s.d(), s.model), COPY | SEM, "move construction lost content");
            s.valid_after_move(s.c(), s.model, "move-construct");
            s.kill(0);
            R((void)new (slot(0)) C(std::move(s.d())));
            s.valid_after_move(s.d(), s.model, "move-construct");
            s.kill(1);
            return true;
        });
        for (int st = 0; st <= (STATEFUL ? 1 : 0); ++st)
            for (int k = 0; k < 4; ++k)
            {
                if constexpr (COPYABLE)
                    op(cat_str("copy-assign from preset ", k, " st", st), [=](Sys& s)
                    {
                        build_at(1, st);
                        M w;
                        w.st = st;
                        s.preset(k, s.d(), w);
                        R((void)(s.c() = std::as_const(s.d())));
                        MC_CHECK(lookups(s.d(), w), COPY | SEM, "copy assignment changed the source");
                        s.model = w;
                        s.kill(1);
                        return true;
                    });
                op(cat_str("move-assign from preset ", k, " st", st), [=](Sys& s)
                {
                    build_at(1, st);
                    M w;
                    w.st = st;
                    s.preset(k, s.d(), w);
                    R((void)(s.c() = std::move(s.d())));
                    s.model = w;
                    MC_CHECK(lookups(s.c(), w), COPY | SEM, "move assignment lost content");
                    s.valid_after_move(s.d(), w, "move-assign");
                    s.kill(1);
                    return true;
                });
                op(cat_str("swap with preset ", k, " st", st), [=](Sys& s)
                {
                    build_at(1, st);
                    M w;
                    w.st = st;
                    s.preset(k, s.d(), w);
                    const M old = s.model;
                    { using std::swap; R(swap(s.c(), s.d())); }
                    s.model = w;
                    MC_CHECK(lookups(s.d(), old), COPY | SEM, "swap lost content");
                    s.poke(s.d(), old, "swapped");
                    s.kill(1);
                    return true;
                });
            }
        if constexpr (TRIVIAL)
            op("byte-relocate to another address, continue there", [](Sys& s)
            {
                std::memcpy(slot(1), slot(0), g_slot_size);
                std::memset(slot(0), 0x3C, g_slot_size);
                MC_CHECK(lookups(s.d(), s.model), RELOC, "relocated content differs");
                for (int k = 1; k <= NKEY; ++k) if (m_find(s.model, k) < 0) { put(s.d(), s.model, k, 1); break; }
                MC_CHECK(lookups(s.d(), s.model), RELOC, "relocated container misbehaves");
                std::memcpy(slot(0), slot(1), g_slot_size);
                wipe_slot(1);
                return true;
            });
    }
    // ---- pairs of reachable states
    const char* pair_assign_name(int k) { static const char* n[] = {"copy-assign", "move-assign", "swap"}; return n[k]; }
    // leaves the result in slot 0 (its model is that of the operand), slot 1 destroyed
    bool pair_assign(int k)
    {
        if (k == 0)
        {
            if constexpr (std::is_copy_assignable_v<C> && COPYABLE) R((void)(c() = std::as_const(d())));
            else return false;
        }
        else if (k == 1) R((void)(c() = std::move(d())));
        else { using std::swap; R(swap(c(), d())); }
        kill(1);
        return true;
    }
    bool pair_ops(const M&, const M&) { return true; }
    int pair_op_count() { return 4; }
    const char* pair_op_name(int k)
    {
        static const char* n[] = {"compare", "copy-assign", "move-assign", "swap"};
        return n[k];
    }
    bool pair_op(int k, const M& mx, const M& my)
    {
        switch (k)
        {
        case 0:
        {
            if ((g_mask & CMP) == 0) return false;
            const C& x = c();
            const C& y = d();
            auto a = mx.e, b = my.e;
            if constexpr (ORDERED)
            {
                if (mx.st != my.st) return false;
#if defined(KIND_SET)
                std::vector<int> p, q;
                for (auto& e : a) p.push_back(e.first);
                for (auto& e : b) q.push_back(e.first);
                MC_CHECK((R(x <=> y)) == (p <=> q), CMP, "<=>");
                MC_CHECK((R(x < y)) == (p < q) && (R(x > y)) == (p > q) && (R(x <= y)) == (p <= q) && (R(x >= y)) == (p >= q), CMP, "ordering");
#endif
            }
            else { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
#if defined(HASH_STATEFUL)
            if (mx.st == 0 || my.st == 0) { wipe_slot(1); return true; }
#endif
#if !defined(HASH_COARSE)
            MC_CHECK((R(x == y)) == (a == b), CMP, "==");
            MC_CHECK((R(x != y)) == (a != b), CMP, "!=");
#endif
            wipe_slot(1);
            return true;
        }
        case 1:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            if constexpr (COPYABLE)
            {
                R((void)(c() = std::as_const(d())));
                MC_CHECK(lookups(d(), my), COPY, "copy-assign changed the source");
                poke(c(), my, "copy-assigned");
                MC_CHECK(lookups(d(), my), COPY, "using the copy changed the source");
                break;
            }
            else return false;
        case 2:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            R((void)(c() = std::move(d())));
            poke(c(), my, "move-assigned");
            valid_after_move(d(), my, "move-assign");
            break;
        case 3:
        {
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            using std::swap;
            R(swap(c(), d()));
            MC_CHECK(lookups(c(), my) && lookups(d(), mx), COPY, "swap");
            break;
        }
        default:
            return false;
        }
        kill(0);
        kill(1);
        model.e.clear();
        return true;
    }
};

int main(int argc, char** argv)
{
    using C = CT<CAP>;
    using C2 = CT<CAP + 2>;
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(C));
#ifdef POLICY_ABORT
    g_abort_policy = true;
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
    g_program = std::string(PROG);
    using Sys = SysT<C, C2, KEY, VAL, MAPC>;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
