// Makers, builders and the less travelled overloads of the public API, over every small content.
// -DPART=0 vector builder, 1 makers of the sequences, 2 makers of the keyed containers, hinted insertion and
// iterator arrows, 3 enum builders, 4 streams, 5 raw view iterators, 6 value utilities, 7 ordinals
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/enum_utils.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/pair_view.hpp"
#include <iomanip>
#include <sstream>
using namespace mc;
namespace fc = fixed_containers;
namespace rb = fixed_containers::fixed_red_black_tree_detail;
using Comp = rb::RedBlackTreeNodeColorCompactness;
#ifndef JUST
#define JUST -1
#endif
#define FOR(k) if constexpr (JUST == -1 || JUST == (k))
#ifndef PART
#define PART 0
#endif
using W = std::vector<int>;
static constexpr std::uint32_t BAD = SEM | MISC | VIEW;

// Copies and moves are told apart, lives are counted
static long g_alive = 0;
struct Sly
{
    int v;
    Sly(int x = 0) : v(x) { ++g_alive; }
    Sly(const Sly& o) : v(o.v) { ++g_alive; }
    Sly(Sly&& o) noexcept : v(o.v) { ++g_alive; if (this != &o) o.v = -1; }
    Sly& operator=(const Sly& o) { v = o.v; return *this; }
    Sly& operator=(Sly&& o) noexcept { const int t = o.v; if (this != &o) o.v = -1; v = t; return *this; }
    ~Sly() { --g_alive; v = -2; }
    friend bool operator==(const Sly& a, const Sly& b) { return a.v == b.v; }
    friend auto operator<=>(const Sly& a, const Sly& b) { return a.v <=> b.v; }
};
// a key whose own comparisons say that everything is equal: only the functors given to the container may decide
struct Liar : Sly
{
    using Sly::Sly;
    friend bool operator==(const Liar&, const Liar&) { return true; }
    friend std::strong_ordering operator<=>(const Liar&, const Liar&) { return std::strong_ordering::equal; }
};
struct LiarLess { bool operator()(const Liar& a, const Liar& b) const { return a.v < b.v; } };
struct LiarEq { bool operator()(const Liar& a, const Liar& b) const { return a.v == b.v; } };
// and one whose own comparisons say that everything differs
struct Denier : Sly
{
    using Sly::Sly;
    friend bool operator==(const Denier&, const Denier&) { return false; }
    friend std::strong_ordering operator<=>(const Denier&, const Denier&) { return std::strong_ordering::less; }
};
struct DenierLess { bool operator()(const Denier& a, const Denier& b) const { return a.v < b.v; } };
struct DenierEq { bool operator()(const Denier& a, const Denier& b) const { return a.v == b.v; } };
static int num(int x) { return x; }
static int num(char x) { return x - 'a'; }
static int num(const Sly& x) { return x.v; }

template <class F>
static void item(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const long alive0 = g_alive;
    const Event ev = guarded([&] { f(); });
    if (ev.kind != EV_NONE) fail(BAD | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    else MC_CHECK(g_alive == alive0, BAD | LIFE, "elements leaked or destroyed twice: ", g_alive - alive0);
    MC_CHECK(g_san_reports == san0, BAD | LIFE | CRASH, "memory error / undefined behaviour");
}
template <class F>
static void each_word(int maxlen, int alpha, F&& f)
{
    for (int len = 0; len <= maxlen; ++len)
    {
        long total = 1;
        for (int i = 0; i < len; ++i) total *= alpha;
        for (long code = 0; code < total; ++code)
        {
            W w;
            long x = code;
            for (int i = 0; i < len; ++i, x /= alpha) w.push_back((int)(x % alpha));
            ++g_states;
            f(w);
        }
    }
}
static std::string show(const W& w)
{
    std::string s = "{";
    for (int i : w) s += cat_str(s.size() > 1 ? "," : "", i);
    return s + "}";
}
template <class C>
static W contents(const C& c)
{
    W o;
    for (const auto& x : c) o.push_back(num(x));
    return o;
}
template <class C>
static void same(const C& c, const W& want, const char* what)
{
    const W got = contents(c);
    MC_CHECK(got == want, BAD, what, " holds ", show(got), " and should hold ", show(want));
    MC_CHECK(c.size() == want.size(), BAD, what, " has a wrong size");
}

// ---------------------------------------------------------------- builders of vectors
template <class T>
static void vector_builder(const char* nm)
{
    using V = fc::FixedVector<T, 6>;
    using B = typename V::Builder;
    // every sequence of up to 4 steps out of: one element, a list of 0..2, iterators over 0..2, a container of 0..2
    constexpr int STEPS = 10;
    each_word(4, STEPS, [&](const W& steps)
    {
        int total = 0;
        for (int s : steps) total += s == 0 ? 1 : (s - 1) % 3;
        if (total > 6) return;
        for (int mode = 0; mode < 3; ++mode)
            item(cat_str(nm, " builder, steps ", show(steps), mode == 0 ? " on a variable" : mode == 1 ? " on temporaries" : " alternating"), [&]
            {
                B b;
                W want;
                int next = 1;
                int at = 0;
                for (int s : steps)
                {
                    const bool rv = mode == 1 || (mode == 2 && at++ % 2 == 1);
                    const int n = s == 0 ? 1 : (s - 1) % 3;
                    const int how = s == 0 ? 0 : 1 + (s - 1) / 3;
                    std::vector<T> src;
                    for (int i = 0; i < n; ++i) { want.push_back(next); src.push_back(T(next++)); }
                    const std::vector<T> keep = src;
                    const B* p = nullptr;
                    if (how == 0) p = rv ? std::addressof((const B&)std::move(b).push_back(src[0])) : std::addressof(b.push_back(src[0]));
                    else if (how == 1)
                    {
                        std::initializer_list<T> none{};
                        if (n == 0) p = rv ? std::addressof((const B&)std::move(b).push_back_all(none)) : std::addressof(b.push_back_all(none));
                        else if (n == 1) p = rv ? std::addressof((const B&)std::move(b).push_back_all({src[0]})) : std::addressof(b.push_back_all({src[0]}));
                        else p = rv ? std::addressof((const B&)std::move(b).push_back_all({src[0], src[1]})) : std::addressof(b.push_back_all({src[0], src[1]}));
                    }
                    else if (how == 2) p = rv ? std::addressof((const B&)std::move(b).push_back_all(src.begin(), src.end())) : std::addressof(b.push_back_all(src.begin(), src.end()));
                    else p = rv ? std::addressof((const B&)std::move(b).push_back_all(src)) : std::addressof(b.push_back_all(src));
                    MC_CHECK(p == &b, BAD, "a builder step does not return the builder");
                    MC_CHECK(src == keep, BAD, "the source was changed");
                    // building from a variable neither disturbs it nor ties the result to it
                    const V snap = std::as_const(b).build();
                    same(snap, want, "an intermediate result");
                }
                V one = b.build();
                same(one, want, "the result of build() on a variable");
                one.clear();
                V two = std::as_const(b).build();
                same(two, want, "the result of build() after another result was cleared");
                V three = std::move(b).build();
                same(three, want, "the result of build() on a temporary");
                MC_CHECK(two == three, BAD, "results differ");
            });
    });
    item("chain on a temporary", [&]
    {
        const T a(1), c(3);
        std::vector<T> more{T(4), T(5)};
        V v = B{}.push_back(a).push_back_all({T(2), c}).push_back_all(more).push_back_all(more.begin(), more.begin() + 1).build();
        same(v, W{1, 2, 3, 4, 5, 4}, "a chain");
    });
}

// ---------------------------------------------------------------- makers of sequences
template <class T, int N>
static void sequence_makers()
{
    if constexpr (N > 0)
        each_word(N, 3, [&](const W& w)
        {
            if ((int)w.size() != N) return;
            item(cat_str("makers, ", show(w)), [&]
            {
                auto go = [&]<std::size_t... I>(std::index_sequence<I...>)
                {
                    const T arr[N] = {T(w[I])...};
                    using Chk = RecSeqChecking<T>;
                    // they keep working: a full container that is drained and refilled from the other end
                    auto run = [&](auto& x)
                    {
                        std::deque<int> m(w.begin(), w.end());
                        for (int k = 0; k < 2 * N + 1; ++k)
                        {
                            x.pop_front(); m.pop_front();
                            x.push_back(T(k + 5)); m.push_back(k + 5);
                            same(x, W(m.begin(), m.end()), "a made container after use");
                        }
                        for (int k = 0; k < 2 * N + 1; ++k)
                        {
                            x.pop_back(); m.pop_back();
                            x.push_front(T(k + 50)); m.push_front(k + 50);
                            same(x, W(m.begin(), m.end()), "a made container after use");
                        }
                        MC_CHECK(fc::is_full(x), BAD, "a made container is full");
                    };
                    FOR(2)
                    {
                    auto c = fc::make_fixed_circular_deque(arr);
                    static_assert(std::is_same_v<decltype(c), fc::FixedCircularDeque<T, N>>);
                    same(c, w, "make_fixed_circular_deque");
                    auto c2 = fc::make_fixed_circular_deque<T, Chk>(arr);
                    static_assert(std::is_same_v<decltype(c2), fc::FixedCircularDeque<T, N, Chk>>);
                    same(c2, w, "make_fixed_circular_deque with a policy");
                    run(c); run(c2);
                    }
                    FOR(1)
                    {
                    auto d = fc::make_fixed_deque(arr);
                    static_assert(std::is_same_v<decltype(d), fc::FixedDeque<T, N>>);
                    same(d, w, "make_fixed_deque");
                    auto d2 = fc::make_fixed_deque<T, Chk>(arr);
                    same(d2, w, "make_fixed_deque with a policy");
                    run(d); run(d2);
                    }
                    FOR(0)
                    {
                    auto v = fc::make_fixed_vector(arr);
                    static_assert(std::is_same_v<decltype(v), fc::FixedVector<T, N>>);
                    same(v, w, "make_fixed_vector");
                    auto v2 = fc::make_fixed_vector<T, Chk>(arr);
                    same(v2, w, "make_fixed_vector with a policy");
                    }
                    FOR(3)
                    {
                    auto l = fc::make_fixed_list(arr);
                    same(l, w, "make_fixed_list");
                    auto l2 = fc::make_fixed_list<T, Chk>(arr);
                    same(l2, w, "make_fixed_list with a policy");
                    run(l); run(l2);
                    }
                    for (int i = 0; i < N; ++i) MC_CHECK(num(arr[i]) == w[(std::size_t)i], BAD, "a maker changed its source");
                };
                go(std::make_index_sequence<(std::size_t)N>{});
            });
        });
    else
        item("makers of empty containers", [&]
        {
            const std::array<T, 0> none{};
            using Chk = RecSeqChecking<T>;
            FOR(2)
            {
                auto c = fc::make_fixed_circular_deque(none);
                static_assert(std::is_same_v<decltype(c), fc::FixedCircularDeque<T, 0>>);
                same(c, W{}, "made");
                same(fc::make_fixed_circular_deque<T, Chk>(none), W{}, "made");
            }
            FOR(1) { same(fc::make_fixed_deque(none), W{}, "made"); same(fc::make_fixed_deque<T, Chk>(none), W{}, "made"); }
            FOR(0) { same(fc::make_fixed_vector(none), W{}, "made"); same(fc::make_fixed_vector<T, Chk>(none), W{}, "made"); }
            FOR(3) { same(fc::make_fixed_list(none), W{}, "made"); same(fc::make_fixed_list<T, Chk>(none), W{}, "made"); }
            ++g_states;
        });
}

// ---------------------------------------------------------------- makers of maps, hints, arrows
struct Way
{
    int turn;
    explicit Way(int t = 0) : turn(t) {}
    bool operator()(int a, int b) const { return (a + turn) % 4 < (b + turn) % 4; }
    std::size_t operator()(int a) const { return (std::size_t)((a + turn) % 2); }
};
struct Same
{
    int m;
    explicit Same(int x = 97) : m(x) {}
    bool operator()(int a, int b) const { return a % m == b % m; }
};
template <class M>
static std::vector<std::pair<int, int>> pairs_of(const M& m)
{
    std::vector<std::pair<int, int>> o;
    for (const auto& [k, v] : m) o.emplace_back(k, num(v));
    return o;
}
template <int N, class V>
static void map_makers()
{
    each_word(N, 4, [&](const W& w)
    {
        if ((int)w.size() != N) return;
        for (int turn = 0; turn < 4; ++turn)
            item(cat_str("map makers, keys ", show(w), " turn ", turn), [&]
            {
                auto go = [&]<std::size_t... I>(std::index_sequence<I...>)
                {
                    const std::pair<int, V> arr[N] = {{w[I], V((int)I + 10)}...};
                    std::map<int, int> asc;
                    std::map<int, int, Way> turned{Way(turn)};
                    for (int i = 0; i < N; ++i) { asc.emplace(w[(std::size_t)i], i + 10); turned.emplace(w[(std::size_t)i], i + 10); }
                    auto is = [&](const auto& got, const auto& want, const char* what)
                    {
                        const auto a = pairs_of(got);
                        const std::vector<std::pair<int, int>> b(want.begin(), want.end());
                        MC_CHECK(a == b, BAD, what, " holds something else or in another order");
                    };
                    const int sarr[N] = {w[I]...};
                    FOR(4)
                    {
                    auto m = fc::make_fixed_map(arr);
                    static_assert(std::is_same_v<decltype(m), fc::FixedMap<int, V, N>>);
                    is(m, asc, "make_fixed_map");
                    auto m2 = fc::make_fixed_map<int, V, Way>(arr, Way(turn));
                    is(m2, turned, "make_fixed_map with an order");
                    using Chk = fc::customize::MapAbortChecking<int, V, N>;
                    auto m3 = fc::make_fixed_map<int, V, Way, Comp::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, Chk>(arr, Way(turn));
                    static_assert(std::is_same_v<decltype(m3), fc::FixedMap<int, V, N, Way, Comp::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, Chk>>);
                    is(m3, turned, "make_fixed_map with an order, a policy and a storage");
                    // the order given is the one in use afterwards
                    for (int k = 0; k < 8; ++k)
                    {
                        auto copy = m2;
                        auto mm = turned;
                        if ((int)mm.size() < N || mm.contains(k)) { copy.try_emplace(k, V(99)); mm.try_emplace(k, 99); }
                        is(copy, mm, "a made map after an insertion");
                        MC_CHECK(copy.contains(k) == mm.contains(k), BAD, "a made map uses another order");
                        const auto lb = m3.lower_bound(k);
                        const auto ml = turned.lower_bound(k);
                        MC_CHECK((lb == m3.end()) == (ml == turned.end()) && (ml == turned.end() || lb->first == ml->first), BAD, "lower_bound of a made map");
                    }
                    }
                    FOR(5)
                    {
                    auto s = fc::make_fixed_set(sarr);
                    static_assert(std::is_same_v<decltype(s), fc::FixedSet<int, N>>);
                    same(s, [&] { W o; for (auto& [k, v] : asc) o.push_back(k); return o; }(), "make_fixed_set");
                    auto s2 = fc::make_fixed_set<int, Way>(sarr, Way(turn));
                    same(s2, [&] { W o; for (auto& [k, v] : turned) o.push_back(k); return o; }(), "make_fixed_set with an order");
                    }
                    FOR(6)
                    {
                    auto u = fc::make_fixed_unordered_map(arr);
                    MC_CHECK(u.size() == asc.size(), BAD, "make_fixed_unordered_map: size");
                    for (auto& [k, v] : asc) MC_CHECK(u.contains(k) && num(u.at(k)) == v, BAD, "make_fixed_unordered_map: content");
                    const Same eq(turn % 2 ? 97 : 2);
                    auto u2 = fc::make_fixed_unordered_map<int, V, Way, Same>(arr, Way(turn), eq);
                    std::unordered_map<int, int, Way, Same> model(8, Way(turn), eq);
                    for (int i = 0; i < N; ++i) model.emplace(w[(std::size_t)i], i + 10);
                    MC_CHECK(u2.size() == model.size(), BAD, "make_fixed_unordered_map with functors: size");
                    for (int k = 0; k < 6; ++k)
                        MC_CHECK(u2.contains(k) == model.contains(k) && (!model.contains(k) || num(u2.at(k)) == model.at(k)), BAD, "make_fixed_unordered_map with functors: content");
                    }
                    FOR(7)
                    {
                    auto us = fc::make_fixed_unordered_set(sarr);
                    MC_CHECK(us.size() == asc.size(), BAD, "make_fixed_unordered_set: size");
                    for (auto& [k, v] : asc) MC_CHECK(us.contains(k), BAD, "make_fixed_unordered_set: content");
                    const Same eq(turn % 2 ? 97 : 2);
                    auto u2 = fc::make_fixed_unordered_set<int, Way, Same>(sarr, Way(turn), eq);
                    std::unordered_set<int, Way, Same> model(8, Way(turn), eq);
                    for (int i = 0; i < N; ++i) model.insert(w[(std::size_t)i]);
                    MC_CHECK(u2.size() == model.size(), BAD, "make_fixed_unordered_set with functors: size");
                    for (int k = 0; k < 6; ++k) MC_CHECK(u2.contains(k) == model.contains(k), BAD, "make_fixed_unordered_set with functors: content");
                    }
                };
                go(std::make_index_sequence<(std::size_t)N>{});
            });
    });
}
template <class V>
static void empty_map_makers()
{
    item("makers of empty maps", [&]
    {
        ++g_states;
        const std::array<std::pair<int, V>, 0> none{};
        const std::array<int, 0> nones{};
        FOR(4)
        {
            auto m = fc::make_fixed_map(none);
            auto m2 = fc::make_fixed_map<int, V, Way>(none, Way(2));
            static_assert(decltype(m)::static_max_size() == 0);
            MC_CHECK(m.empty() && m2.empty() && m.begin() == m.end() && m2.find(1) == m2.end(), BAD, "not empty");
        }
        FOR(5)
        {
            auto s = fc::make_fixed_set(nones);
            auto s2 = fc::make_fixed_set<int, Way>(nones, Way(2));
            static_assert(decltype(s)::static_max_size() == 0);
            MC_CHECK(s.empty() && s2.empty() && s.begin() == s.end() && s2.find(1) == s2.end(), BAD, "not empty");
        }
        FOR(6) { auto u = fc::make_fixed_unordered_map(none); MC_CHECK(u.empty() && u.begin() == u.end() && !u.contains(1), BAD, "not empty"); }
        FOR(7) { auto u = fc::make_fixed_unordered_set(nones); MC_CHECK(u.empty() && u.begin() == u.end() && !u.contains(1), BAD, "not empty"); }
    });
}
// Every prefix of keys, every hint, every next key: hinted and unhinted overloads with lvalue and rvalue keys agree
// with the standard container.
template <class M, class MM>
static void lookups_and_erase(M& m, MM& mm, int victim)
{
    using K = typename M::key_type;
    auto key_at = [](const auto& it) -> int { if constexpr (requires { typename M::mapped_type; }) return it->first.v; else return it->v; };
    for (int round = 0; round < 2; ++round)
    {
        const M& c = m;
        for (int q = 0; q < 5; ++q)
        {
            const bool in = mm.contains(q);
            MC_CHECK(c.contains(K(q)) == in && c.count(K(q)) == (in ? 1u : 0u), BAD, "contains or count of ", q);
            auto f = c.find(K(q));
            MC_CHECK((f != c.cend()) == in && (!in || key_at(f) == q), BAD, "find of ", q);
        }
        if (round == 0) MC_CHECK(m.erase(K(victim)) == (std::size_t)mm.erase(victim) && m.size() == mm.size(), BAD, "erase of ", victim);
    }
}
template <class M, bool ORDERED>
static void hinted_map(const char* nm)
{
    using K = typename M::key_type;
    each_word(4, 4, [&](const W& w)
    {
        for (int key = 0; key < 4; ++key)
            for (int how = 0; how < 8; ++how)
            {
                std::map<int, int> model;
                for (int k : w) model.try_emplace(k, k * 10);
                for (std::size_t hint = 0; hint <= model.size(); ++hint)
                    item(cat_str(nm, " of ", show(w), ", operation ", how, " with key ", key, " and hint ", (long)hint), [&]
                    {
                        M m;
                        for (int k : w) m.try_emplace(K(k), Sly(k * 10));
                        std::map<int, int> mm = model;
                        auto h = std::next(m.cbegin(), (std::ptrdiff_t)hint);
                        K k(key);
                        Sly v(77);
                        const bool fresh = !mm.contains(key);
                        typename M::iterator it = m.end();
                        const K& ck = k;
                        const Sly& cv = v;
                        bool key_moved = false, val_moved = false, assigned = false, has_flag = true, flag = fresh;
                        auto res = [&](auto&& r)
                        {
                            if constexpr (requires { r.second; r.first->second; }) { it = r.first; flag = r.second; }
                            else { it = r; has_flag = false; }
                        };
                        switch (how)
                        {
                        case 0: res(m.try_emplace(h, ck, cv)); break;
                        case 1: res(m.try_emplace(h, std::move(k), cv)); key_moved = fresh; break;
                        case 2: res(m.try_emplace(h, ck, std::move(v))); val_moved = fresh; break;
                        case 3: res(m.insert_or_assign(h, ck, cv)); assigned = true; break;
                        case 4: res(m.insert_or_assign(h, std::move(k), std::move(v))); key_moved = fresh; val_moved = true; assigned = true; break;
                        case 5: res(m.emplace_hint(h, ck, cv)); break;
                        case 6: res(m.try_emplace(ck, cv)); break;
                        default: res(m.insert_or_assign(ck, cv)); assigned = true; break;
                        }
                        (void)has_flag;
                        if (fresh || assigned) mm[key] = 77;
                        MC_CHECK(flag == fresh, BAD, "reports the wrong outcome");
                        MC_CHECK(it != m.end() && it->first.v == key && it->second.v == mm[key], BAD, "returns the wrong position");
                        MC_CHECK(k.v == (key_moved ? -1 : key), BAD, "the key handed over is ", k.v);
                        MC_CHECK(v.v == (val_moved ? -1 : 77), BAD, "the value handed over is ", v.v);
                        MC_CHECK(m.size() == mm.size(), BAD, "size");
                        if constexpr (ORDERED)
                        {
                            auto a = m.begin();
                            for (auto& [kk, vv] : mm) { MC_CHECK(a->first.v == kk && (*a).second.v == vv, BAD, "content"); ++a; }
                        }
                        for (auto& [kk, vv] : mm) MC_CHECK(m.at(K(kk)).v == vv, BAD, "content");
                        lookups_and_erase(m, mm, (int)hint);
                    });
            }
    });
}
template <class S, bool ORDERED>
static void hinted_set(const char* nm)
{
    using K = typename S::key_type;
    each_word(4, 4, [&](const W& w)
    {
        for (int key = 0; key < 4; ++key)
            for (int how = 0; how < 6; ++how)
            {
                const std::set<int> model(w.begin(), w.end());
                for (std::size_t hint = 0; hint <= model.size(); ++hint)
                    item(cat_str(nm, " of ", show(w), ", operation ", how, " with key ", key, " and hint ", (long)hint), [&]
                    {
                        S s;
                        for (int k : w) s.insert(K(k));
                        std::set<int> mm = model;
                        auto h = std::next(s.cbegin(), (std::ptrdiff_t)hint);
                        K k(key);
                        const K& ck = k;
                        const bool fresh = mm.insert(key).second;
                        bool flag = fresh, moved = false;
                        constexpr bool has_try = requires(S& q, typename S::const_iterator qh, K qk) { q.try_emplace(qh, std::move(qk)); };
                        typename S::const_iterator it = s.cend();
                        auto res = [&](auto&& r)
                        {
                            if constexpr (requires { r.first; r.second; }) { it = r.first; flag = r.second; }
                            else it = r;
                        };
                        switch (how)
                        {
                        case 0: res(s.insert(h, ck)); break;
                        case 1: res(s.insert(h, std::move(k))); moved = fresh; break;
                        case 2: res(s.emplace_hint(h, key)); break;
                        case 3:
                            if constexpr (requires { s.try_emplace(h, ck); }) res(s.try_emplace(h, ck));
                            else res(s.insert(ck));
                            break;
                        case 4:
                            if constexpr (requires { s.try_emplace(h, std::move(k)); }) res(s.try_emplace(h, std::move(k)));
                            else res(s.insert(std::move(k)));
                            moved = fresh;
                            break;
                        default: res(s.emplace(key)); break;
                        }
                        MC_CHECK(flag == fresh, BAD, "reports the wrong outcome");
                        MC_CHECK(it != s.cend() && it->v == key && (*it).v == key && it.operator->() == std::addressof(*it), BAD, "returns the wrong position");
                        // what insert() leaves in a key that it did not need is its own business; try_emplace() leaves it alone
                        const bool loose = !fresh && (how == 1 || (how == 4 && !has_try));
                        MC_CHECK(loose || k.v == (moved ? -1 : key), BAD, "the key handed over is ", k.v);
                        W got;
                        for (auto i = s.begin(); i != s.end(); ++i) { got.push_back(i->v); MC_CHECK(std::addressof(*i) == i.operator->(), BAD, "arrow"); }
                        if constexpr (!ORDERED) std::sort(got.begin(), got.end());
                        MC_CHECK(got == W(mm.begin(), mm.end()), BAD, "content");
                        lookups_and_erase(s, mm, (int)hint);
                    });
            }
    });
}
struct HashSly { std::uint64_t operator()(const Sly& s) const { return (std::uint64_t)(s.v % 2); } };

// ---------------------------------------------------------------- enum builders
template <class K, class V>
static void enum_map_builder(const char* nm)
{
    using M = fc::EnumMap<K, V>;
    using B = typename M::Builder;
    using P = typename M::value_type;
    static const std::vector<K> keys = en::KEYS<K>();
    const int n = std::min<int>(4, (int)keys.size());
    // a step: how * n + key; ways: lvalue, rvalue, list of one, list of two, iterators
    each_word(3, 5 * n, [&](const W& steps)
    {
        for (int mode = 0; mode < 2; ++mode)
            item(cat_str(nm, " builder, steps ", show(steps), mode ? " on temporaries" : " on a variable"), [&]
            {
                B b;
                std::vector<int> model(keys.size(), -7);
                int next = 1;
                auto put = [&](int k, int v) { if (model[(std::size_t)k] == -7) { model[(std::size_t)k] = v; return true; } return false; };
                auto check = [&](const M& m)
                {
                    std::size_t cnt = 0;
                    auto it = m.begin();
                    for (std::size_t i = 0; i < keys.size(); ++i)
                    {
                        const bool has = model[i] != -7;
                        MC_CHECK(m.contains(keys[i]) == has, BAD, "a built map has or lacks key ", (long)i);
                        if (!has) continue;
                        ++cnt;
                        MC_CHECK(num(m.at(keys[i])) == model[i], BAD, "a built map has a wrong value");
                        MC_CHECK(it != m.end() && it->first == keys[i] && num(it->second) == model[i], BAD, "iteration over a built map");
                        ++it;
                    }
                    MC_CHECK(it == m.end() && m.size() == cnt, BAD, "a built map has a wrong size");
                };
                for (int s : steps)
                {
                    const int how = s / n, k = s % n, k2 = (k + 1) % n;
                    const B* p = nullptr;
                    if (how == 0)
                    {
                        const P x{keys[(std::size_t)k], V(next)};
                        p = mode ? std::addressof((const B&)std::move(b).insert(x)) : std::addressof(b.insert(x));
                        MC_CHECK(num(x.second) == next, BAD, "the source was changed");
                        put(k, next++);
                    }
                    else if (how == 1)
                    {
                        P x{keys[(std::size_t)k], V(next)};
                        p = mode ? std::addressof((const B&)std::move(b).insert(std::move(x))) : std::addressof(b.insert(std::move(x)));
                        put(k, next++);
                    }
                    else if (how == 2)
                    {
                        p = mode ? std::addressof((const B&)std::move(b).insert({P{keys[(std::size_t)k], V(next)}})) : std::addressof(b.insert({P{keys[(std::size_t)k], V(next)}}));
                        put(k, next++);
                    }
                    else if (how == 3)
                    {
                        p = mode ? std::addressof((const B&)std::move(b).insert({P{keys[(std::size_t)k], V(next)}, P{keys[(std::size_t)k2], V(next + 1)}}))
                                 : std::addressof(b.insert({P{keys[(std::size_t)k], V(next)}, P{keys[(std::size_t)k2], V(next + 1)}}));
                        put(k, next); put(k2, next + 1); next += 2;
                    }
                    else
                    {
                        const std::list<P> src{P{keys[(std::size_t)k], V(next)}, P{keys[(std::size_t)k2], V(next + 1)}, P{keys[(std::size_t)k], V(next + 2)}};
                        p = mode ? std::addressof((const B&)std::move(b).insert(src.begin(), src.end())) : std::addressof(b.insert(src.begin(), src.end()));
                        put(k, next); put(k2, next + 1); next += 3;
                        MC_CHECK(num(src.front().second) == next - 3, BAD, "the source was changed");
                    }
                    MC_CHECK(p == &b, BAD, "a builder step does not return the builder");
                    check(std::as_const(b).build());
                }
                M one = b.build();
                check(one);
                one.clear();
                check(std::as_const(b).build());
                check(std::move(b).build());
            });
    });
    // all entries at once, in every order of the keys
    if (keys.size() >= 3 && keys.size() <= 4)
    {
        std::vector<int> perm(keys.size());
        for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = (int)i;
        do
            item(cat_str(nm, " create_with_all_entries, order ", show(perm)), [&]
            {
                ++g_states;
                auto e = [&](std::size_t i) { return P{keys[(std::size_t)perm[i]], V(perm[i] + 30)}; };
                auto check = [&](const M& m)
                {
                    MC_CHECK(m.size() == keys.size(), BAD, "size");
                    for (std::size_t i = 0; i < keys.size(); ++i) MC_CHECK(m.contains(keys[i]) && num(m.at(keys[i])) == (int)i + 30, BAD, "create_with_all_entries mixed up its entries");
                };
                if (keys.size() == 4) check(M::create_with_all_entries({e(0), e(1), e(2), e(3)}));
                else check(M::create_with_all_entries({e(0), e(1), e(2)}));
                std::vector<P> v;
                for (std::size_t i = 0; i < keys.size(); ++i) v.push_back(e(i));
                check(M::create_with_all_entries(v));
                check(M::create_with_all_entries(std::list<P>(v.begin(), v.end())));
            });
        while (std::next_permutation(perm.begin(), perm.end()));
        // every subset of the keys
        each_word((int)keys.size(), 2, [&](const W& w)
        {
            if (w.size() != keys.size()) return;
            item(cat_str(nm, " create_with_keys ", show(w)), [&]
            {
                std::vector<K> ks;
                for (std::size_t i = 0; i < w.size(); ++i) if (w[i]) ks.push_back(keys[w.size() - 1 - i]);
                const M m = M::create_with_keys(ks, V(5));
                const M z = M::create_with_keys(ks);
                MC_CHECK(m.size() == ks.size() && z.size() == ks.size(), BAD, "size");
                for (const K& k : ks) MC_CHECK(m.contains(k) && num(m.at(k)) == 5 && z.contains(k) && num(z.at(k)) == num(V()), BAD, "create_with_keys");
            });
        });
    }
}
template <class K>
static void enum_set_builder(const char* nm)
{
    using S = fc::EnumSet<K>;
    using B = typename S::Builder;
    static const std::vector<K> keys = en::KEYS<K>();
    const int n = std::min<int>(4, (int)keys.size());
    each_word(3, 6 * n, [&](const W& steps)
    {
        for (int mode = 0; mode < 2; ++mode)
            item(cat_str(nm, " builder, steps ", show(steps), mode ? " on temporaries" : " on a variable"), [&]
            {
                B b;
                std::vector<bool> model(keys.size(), false);
                auto check = [&](const S& m)
                {
                    std::vector<K> want;
                    for (std::size_t i = 0; i < keys.size(); ++i)
                    {
                        MC_CHECK(m.contains(keys[i]) == model[i], BAD, "a built set has or lacks key ", (long)i);
                        if (model[i]) want.push_back(keys[i]);
                    }
                    MC_CHECK(m.size() == want.size() && std::equal(m.begin(), m.end(), want.begin(), want.end()), BAD, "a built set");
                };
                for (int s : steps)
                {
                    const int how = s / n;
                    const std::size_t k = (std::size_t)(s % n), k2 = (k + 1) % (std::size_t)n;
                    const std::vector<K> two{keys[k], keys[k2]};
                    const B* p = nullptr;
                    switch (how)
                    {
                    case 0: p = mode ? std::addressof((const B&)std::move(b).insert(keys[k])) : std::addressof(b.insert(keys[k])); model[k] = true; break;
                    case 1: p = mode ? std::addressof((const B&)std::move(b).insert({keys[k], keys[k2]})) : std::addressof(b.insert({keys[k], keys[k2]})); model[k] = model[k2] = true; break;
                    case 2: p = mode ? std::addressof((const B&)std::move(b).insert(two.begin(), two.end())) : std::addressof(b.insert(two.begin(), two.end())); model[k] = model[k2] = true; break;
                    case 3: p = mode ? std::addressof((const B&)std::move(b).insert(two)) : std::addressof(b.insert(two)); model[k] = model[k2] = true; break;
                    default: p = mode ? std::addressof((const B&)std::move(b).erase(keys[k])) : std::addressof(b.erase(keys[k])); model[k] = false; break;
                    }
                    MC_CHECK(p == &b, BAD, "a builder step does not return the builder");
                    check(std::as_const(b).build());
                }
                S one = b.build();
                one.clear();
                check(b.build());
                check(std::move(b).build());
            });
    });
    each_word((int)keys.size(), 2, [&](const W& w)
    {
        if (w.size() != keys.size()) return;
        item(cat_str(nm, " all, none, copy_of, complement_of ", show(w)), [&]
        {
            S s;
            for (std::size_t i = 0; i < w.size(); ++i) if (w[i]) s.insert(keys[i]);
            std::vector<K> v(s.begin(), s.end());
            MC_CHECK(S::copy_of(v) == s && S::copy_of(s) == s, BAD, "copy_of");
            const S c = S::complement_of(s);
            for (std::size_t i = 0; i < w.size(); ++i) MC_CHECK(c.contains(keys[i]) == !w[i], BAD, "complement_of");
            MC_CHECK(S::complement_of(v) == c, BAD, "complement_of a container");
            MC_CHECK(S::all().size() == keys.size() && S::none().empty(), BAD, "all / none");
        });
    });
}

// ---------------------------------------------------------------- streams
template <std::size_t CAP>
static void streams()
{
    static const char alphabet[] = {'a', ' ', '\n', 'Z', '\t'};
    each_word(5, 5, [&](const W& w)
    {
        std::string text;
        for (int i : w) text += alphabet[i];
        for (int skip = 0; skip < 2; ++skip)
            for (int width = 0; width <= 3; ++width)
                item(cat_str("stream of ", show(w), skip ? " skipping" : " not skipping", " whitespace, width ", width), [&]
                {
                    std::istringstream a(text), b(text);
                    if (!skip) { a >> std::noskipws; b >> std::noskipws; }
                    for (int round = 0; round < 3; ++round)
                    {
                        std::string want = "old";
                        fc::FixedString<CAP> got("old");
                        if (width) { a >> std::setw(width); b >> std::setw(width); }
                        a >> want;
                        const bool ret = static_cast<bool>(b >> got);
                        MC_CHECK(ret == static_cast<bool>(a), BAD, "success and failure differ from std::string");
                        MC_CHECK(std::string_view(got) == want, BAD, "read '", std::string(std::string_view(got)), "' and not '", want, "'");
                        MC_CHECK(got.size() == want.size() && got.c_str()[got.size()] == 0, BAD | NULTERM, "terminator");
                        MC_CHECK(a.rdstate() == b.rdstate() && a.width() == b.width() && a.flags() == b.flags(), BAD, "stream state differs from std::string");
                        a.clear(); b.clear();
                        MC_CHECK(a.tellg() == b.tellg(), BAD, "left the stream at another position");
                    }
                });
        if (w.size() <= 5)
            for (int width = 0; width <= 7; ++width)
                item(cat_str("output of ", show(w), " width ", width), [&]
                {
                    std::ostringstream a, b;
                    const fc::FixedString<CAP> s(text);
                    a << std::setw(width) << std::left << std::setfill('*') << text << '|' << text;
                    b << std::setw(width) << std::left << std::setfill('*') << s << '|' << s;
                    MC_CHECK(a.str() == b.str() && a.rdstate() == b.rdstate(), BAD, "printed ", b.str());
                });
        for (std::size_t cut = 0; cut <= text.size(); ++cut)
            item(cat_str("append a C string ", show(w), " cut ", (long)cut), [&]
            {
                std::string m = text.substr(0, cut);
                const std::string tail = text.substr(cut);
                fc::FixedString<CAP> s(m), t(m), u(m);
                fc::FixedString<CAP>& r = s.append(tail.c_str());
                MC_CHECK(&r == &s && std::string_view(s) == text, BAD, "append(const char*)");
                t += tail.c_str();
                MC_CHECK(std::string_view(t) == text, BAD, "+= const char*");
                u.append(std::string_view(tail));
                MC_CHECK(std::string_view(u) == text && s.c_str()[s.size()] == 0 && t.c_str()[t.size()] == 0, BAD | NULTERM, "append(string_view)");
                s.assign(tail.c_str());
                MC_CHECK(std::string_view(s) == tail, BAD, "assign(const char*)");
            });
    });
}

// ---------------------------------------------------------------- raw view iterators
template <class V, class M, rb::RedBlackTreeNodeColorCompactness C, rb::RedBlackTreeStorageType ST>
static void ordered_view_iterators(const char* nm)
{
    each_word(4, 4, [&](const W& w)
        {
            item(cat_str(nm, " raw view of ", show(w)), [&]
            {
                M m;
                for (int k : w)
                {
                    if (m.contains(k)) m.erase(k);  // odd number of occurrences: present
                    else m.try_emplace(k, V(k + 20));
                }
                const fc::FixedMapRawView v(&m, sizeof(int), alignof(int), sizeof(V), alignof(V), M::static_max_size(), C, ST);
                using It = fc::FixedMapRawView::Iterator;
                auto i = m.begin();
                It pre = v.begin(), post = v.begin(), assigned;
                It moved;
                std::size_t n = 0;
                for (; i != m.end(); ++i, ++n)
                {
                    MC_CHECK(pre != v.end() && post != v.end() && !(pre == v.end()), BAD, "ends early");
                    MC_CHECK((const void*)pre->key() == (const void*)std::addressof(i->first) && (const void*)pre->value() == (const void*)std::addressof(i->second), BAD, "arrow");
                    MC_CHECK((const void*)(*post).key() == (const void*)std::addressof(i->first) && (const void*)(*post).value() == (const void*)std::addressof(i->second), BAD, "star");
                    assigned = pre;
                    moved = It(post);
                    MC_CHECK(assigned == pre && moved == pre && pre == post, BAD, "equality");
                    It& r = ++pre;
                    MC_CHECK(&r == &pre, BAD, "++it");
                    const It old = post++;
                    MC_CHECK(old == assigned && (const void*)old->key() == (const void*)std::addressof(i->first) && (const void*)old->value() == (const void*)std::addressof(i->second) && (const void*)(*old).key() == (const void*)std::addressof(i->first), BAD, "it++ returns the old position");
                    MC_CHECK(pre == post && pre != old, BAD, "++it and it++ agree");
                }
                MC_CHECK(pre == v.end() && post == v.end() && n == m.size() && v.size() == n && v.begin().size() == n, BAD, "end and size");
                std::size_t cnt = 0;
                for (const auto& e : v) { MC_CHECK(m.contains(*reinterpret_cast<const int*>(e.key())), BAD, "range for"); ++cnt; }
                MC_CHECK(cnt == n, BAD, "range for");
                const It a, b;
                const It c = a;
                MC_CHECK(a == b && a == c && !(a != c), BAD, "iterators that refer to nothing are equal");
                It d = v.begin();
                d = a;
                MC_CHECK(d == b, BAD, "assignment of an iterator that refers to nothing");
                // the underlying tree view
                const fc::FixedRedBlackTreeRawView tv(&m, sizeof(std::pair<int, V>), M::static_max_size(), C, ST);
                using TI = fc::FixedRedBlackTreeRawView::Iterator;
                TI t = tv.begin(), u = tv.begin();
                const TI t0, u0;
                MC_CHECK(t0 == u0, BAD, "iterators that refer to nothing are equal");
                MC_CHECK(tv.size() == m.size(), BAD, "size of the tree view");
                for (i = m.begin(); i != m.end(); ++i)
                {
                    MC_CHECK(!(t == tv.end()) && (const void*)*t == (const void*)std::addressof(i->first) && *t.operator->() == *t, BAD, "tree view");
                    const TI old = u++;
                    MC_CHECK(old == t && (const void*)*old == (const void*)std::addressof(i->first) && *old.operator->() == *old, BAD, "it++ of the tree view");
                    ++t;
                    MC_CHECK(t == u, BAD, "++it of the tree view");
                }
                MC_CHECK(t == tv.end() && u == tv.end(), BAD, "end of the tree view");
            });
        });
}
template <class M, class View>
static void unordered_view_iterators(const char* nm)
{
    each_word(4, 4, [&](const W& w)
    {
        item(cat_str(nm, " raw view of ", show(w)), [&]
        {
            M m;
            for (int k : w)
            {
                if (m.contains(k)) m.erase(k);
                else if constexpr (requires { typename M::mapped_type; }) m.try_emplace(k, k + 20);
                else m.insert(k);
            }
            const View v = [&]
            {
                if constexpr (requires { typename M::mapped_type; })
                    return View(&m, sizeof(int), alignof(int), sizeof(typename M::mapped_type), alignof(typename M::mapped_type), M::static_max_size());
                else return View(&m, sizeof(int), alignof(int), M::static_max_size());
            }();
            auto pre = v.begin();
            auto post = v.begin();
            decltype(pre) dflt{};
            std::size_t n = 0;
            for (auto i = m.begin(); i != m.end(); ++i, ++n)
            {
                MC_CHECK(pre != v.end() && !(post == v.end()), BAD, "ends early");
                dflt = pre;
                ++pre;
                auto old = post++;
                MC_CHECK(old == dflt && pre == post && !(old == pre), BAD, "++it and it++");
            }
            MC_CHECK(pre == v.end() && post == v.end() && v.size() == n, BAD, "end and size");
        });
    });
}

// ---------------------------------------------------------------- value utilities
template <class T>
static void pair_views()
{
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            item(cat_str("std::get over pair views ", i, ",", j), [&]
            {
                ++g_states;
                T a(i), b(j);
                fc::PairView<T, T> none;
                fc::PairView<T, T> p(&a, &b);
                none = p;
                MC_CHECK(&none.first() == &a && &none.second() == &b, BAD, "assignment");
                const fc::PairView<T, T> c = p;
                MC_CHECK(&std::get<0>(p) == &a && &std::get<1>(p) == &b, BAD, "get of an lvalue");
                MC_CHECK(&std::get<0>(c) == &a && &std::get<1>(c) == &b, BAD, "get of a const lvalue");
                auto&& r0 = std::get<0>(std::move(p));
                auto&& r1 = std::get<1>(std::move(p));
                MC_CHECK(&r0 == &a && &r1 == &b, BAD, "get of an rvalue");
                auto&& s0 = std::get<0>(std::move(c));
                auto&& s1 = std::get<1>(std::move(c));
                MC_CHECK(&s0 == &a && &s1 == &b, BAD, "get of a const rvalue");
                static_assert(std::is_const_v<std::remove_reference_t<decltype(s0)>> && !std::is_const_v<std::remove_reference_t<decltype(r0)>>);
                fc::PairView<const T, T> k(&a, &b);
                auto&& t0 = std::get<0>(std::move(k));
                auto&& t1 = std::get<1>(std::move(k));
                MC_CHECK(&t0 == &a && &t1 == &b, BAD, "get of an rvalue with a const first");
                static_assert(std::is_const_v<std::remove_reference_t<decltype(t0)>> && !std::is_const_v<std::remove_reference_t<decltype(t1)>>);
                MC_CHECK(a.v == i && b.v == j, BAD, "a view moved what it refers to");
                fc::pair_view_detail::AssignablePairView<const T, T> x, y(&a, &b);
                x = y;
                MC_CHECK(&x.first() == &a && &x.second() == &b, BAD, "assignable view");
                fc::PairView<const T, T>& z = x;
                auto& [f, s] = z;
                MC_CHECK(&f == &a && &s == &b, BAD, "structured binding");
                s = T(9);
                MC_CHECK(b.v == 9 && a.v == i, BAD, "writing through a view");
            });
}

// ---------------------------------------------------------------- ordinals
template <class E>
static void ordinals(const char* nm)
{
    const std::vector<E> keys = en::KEYS<E>();
    using A = fc::rich_enums::EnumAdapter<E>;
    item(nm, [&]
    {
        MC_CHECK(A::count() == keys.size() && A::values().size() == keys.size(), BAD, "count");
        for (std::size_t i = 0; i < keys.size(); ++i)
        {
            ++g_states;
            MC_CHECK(A::ordinal(keys[i]) == i && A::values()[i] == keys[i], BAD, "the ordinal of enumerator ", (long)i, " is ", (long)A::ordinal(keys[i]));
            for (std::size_t j = 0; j < keys.size(); ++j) MC_CHECK((A::to_string(keys[i]) == A::to_string(keys[j])) == (i == j), BAD, "names");
        }
        MC_CHECK(fc::rich_enums_detail::has_zero_based_and_sorted_contiguous_ordinal(A::values(), fc::rich_enums_detail::RichEnumAdapterOrdinalFunctor<A>{}), BAD, "the ordinals of an adapter are 0, 1, 2 ... in the order of values()");
    });
}

int main(int argc, char** argv)
{
    g_program = PROG;
    parse_args(argc, argv);
    init_runtime();
#if PART == 0
    vector_builder<int>("int vector");
    vector_builder<Sly>("vector");
#elif PART == 1
    sequence_makers<int, 0>(); sequence_makers<int, 1>(); sequence_makers<int, 2>(); sequence_makers<int, 3>(); sequence_makers<int, 5>();
    sequence_makers<Sly, 0>(); sequence_makers<Sly, 1>(); sequence_makers<Sly, 2>(); sequence_makers<Sly, 4>();
#elif PART == 2
    map_makers<1, int>(); map_makers<2, Sly>(); map_makers<3, int>(); map_makers<4, Sly>();
    empty_map_makers<int>();
    empty_map_makers<Sly>();
#elif PART == 20
    hinted_map<fc::FixedMap<Sly, Sly, 5>, true>("FixedMap");
    hinted_map<fc::FixedMap<Liar, Sly, 5, LiarLess>, true>("FixedMap of keys that claim to be equal");
    hinted_map<fc::FixedMap<Denier, Sly, 5, DenierLess>, true>("FixedMap of keys that claim to differ");
    hinted_map<fc::FixedMap<Sly, Sly, 5, std::less<Sly>, Comp::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, true>("FixedMap, contiguous storage");
#elif PART == 21
    hinted_set<fc::FixedSet<Sly, 5>, true>("FixedSet");
    hinted_set<fc::FixedSet<Liar, 5, LiarLess>, true>("FixedSet of keys that claim to be equal");
    hinted_set<fc::FixedSet<Denier, 5, DenierLess>, true>("FixedSet of keys that claim to differ");
#elif PART == 22
    hinted_map<fc::FixedUnorderedMap<Sly, Sly, 5, HashSly>, false>("FixedUnorderedMap");
    hinted_map<fc::FixedUnorderedMap<Liar, Sly, 5, HashSly, LiarEq>, false>("FixedUnorderedMap of keys that claim to be equal");
    hinted_map<fc::FixedUnorderedMap<Denier, Sly, 5, HashSly, DenierEq>, false>("FixedUnorderedMap of keys that claim to differ");
#elif PART == 23
    hinted_set<fc::FixedUnorderedSet<Sly, 5, HashSly>, false>("FixedUnorderedSet");
    hinted_set<fc::FixedUnorderedSet<Liar, 5, HashSly, LiarEq>, false>("FixedUnorderedSet of keys that claim to be equal");
    hinted_set<fc::FixedUnorderedSet<Denier, 5, HashSly, DenierEq>, false>("FixedUnorderedSet of keys that claim to differ");
#elif PART == 3
    enum_map_builder<en::Plain, int>("EnumMap<Plain,int>");
    enum_map_builder<en::Gaps, Sly>("EnumMap<Gaps,Sly>");
    enum_map_builder<en::Rich, Sly>("EnumMap<Rich,Sly>");
    enum_map_builder<en::Ad, int>("EnumMap<Ad,int>");
#elif PART == 30
    enum_set_builder<en::Plain>("EnumSet<Plain>");
    enum_set_builder<en::Gaps>("EnumSet<Gaps>");
    enum_set_builder<en::Rich>("EnumSet<Rich>");
    enum_set_builder<en::Ad>("EnumSet<Ad>");
#elif PART == 4
    streams<8>();
#elif PART == 5
    using St = rb::RedBlackTreeStorageType;
    ordered_view_iterators<int, fc::FixedMap<int, int, 5>, Comp::EMBEDDED_COLOR, St::FIXED_INDEX_POOL>("FixedMap");
    ordered_view_iterators<long, fc::FixedMap<int, long, 5, std::less<int>, Comp::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, Comp::DEDICATED_COLOR, St::FIXED_INDEX_CONTIGUOUS>("FixedMap, contiguous storage");
    unordered_view_iterators<fc::FixedUnorderedMap<int, int, 5>, fc::FixedUnorderedMapRawView>("FixedUnorderedMap");
    unordered_view_iterators<fc::FixedUnorderedSet<int, 5>, fc::FixedUnorderedSetRawView>("FixedUnorderedSet");
#elif PART == 6
    pair_views<Sly>();
#elif PART == 7
    ordinals<en::Plain>("ordinals of Plain");
    ordinals<en::Gaps>("ordinals of Gaps");
    ordinals<en::One>("ordinals of One");
    ordinals<en::Old>("ordinals of Old");
    ordinals<en::Many>("ordinals of Many");
    ordinals<en::Rich>("ordinals of Rich");
    ordinals<en::Bool>("ordinals of Bool");
    ordinals<en::Ad>("ordinals of Ad");
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
