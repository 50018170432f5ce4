// Elements of unusual size and alignment (1/1, 3/1, 17/1, 24/8, 64/64, 1000/4, 4097/1 bytes; trivially copyable or not; empty classes):
// all sequences of DEPTH operations from an empty and a filled container, against a std model. After every operation every
// element must be intact in every byte, aligned, inside the container object and disjoint from the others.
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <deque>
#include <map>
using namespace mc;
namespace fc = fixed_containers;
#ifndef DEPTH
#define DEPTH 3
#endif
static bool g_bad_this;

template <std::size_t S, std::size_t A, bool TRIV>
struct alignas(A) Blob
{
    unsigned char b[S];
    void fill(int v) { for (std::size_t i = 0; i < S; ++i) b[i] = (unsigned char)(v * 37 + (int)i * 11 + 1); }
    void here() const { if (reinterpret_cast<std::uintptr_t>(this) % A != 0) g_bad_this = true; }
    Blob() { fill(0); }
    explicit Blob(int v) { fill(v); }
    Blob(const Blob&) requires TRIV = default;
    Blob(const Blob& o) requires (!TRIV) { here(); for (std::size_t i = 0; i < S; ++i) b[i] = o.b[i]; }
    Blob& operator=(const Blob&) requires TRIV = default;
    Blob& operator=(const Blob& o) requires (!TRIV) { here(); if (this != &o) for (std::size_t i = 0; i < S; ++i) b[i] = o.b[i]; return *this; }
    ~Blob() requires TRIV = default;
    ~Blob() requires (!TRIV) { here(); for (std::size_t i = 0; i < S; ++i) b[i] = 0xEE; }
    int value() const
    {
        for (int v = 0; v < 6; ++v)
            if (b[0] == (unsigned char)(v * 37 + 1))
            {
                for (std::size_t i = 0; i < S; ++i) if (b[i] != (unsigned char)(v * 37 + (int)i * 11 + 1)) return -1;
                return v;
            }
        return -2;
    }
    friend bool operator==(const Blob& a, const Blob& b) { return a.value() == b.value(); }
    friend bool operator<(const Blob& a, const Blob& b) { return a.value() < b.value(); }
};
struct Hash { template <class T> std::uint64_t operator()(const T& x) const { return (std::uint64_t)(x.value() % 2) << 8; } };

template <class It, class C, class T>
static std::string placed(const C& c, const std::vector<const T*>& at)
{
    const auto lo = reinterpret_cast<std::uintptr_t>(&c), hi = lo + sizeof(C);
    for (std::size_t i = 0; i < at.size(); ++i)
    {
        const auto a = reinterpret_cast<std::uintptr_t>(at[i]);
        if (a % alignof(T) != 0) return cat_str("element ", (long)i, " is misaligned");
        if (a < lo || a + sizeof(T) > hi) return cat_str("element ", (long)i, " lies outside of the container object");
        for (std::size_t j = 0; j < i; ++j)
        {
            const auto o = reinterpret_cast<std::uintptr_t>(at[j]);
            if (a < o + sizeof(T) && o < a + sizeof(T)) return cat_str("elements ", (long)j, " and ", (long)i, " overlap");
        }
    }
    return "";
}
template <class C> struct Own  // the container, exactly aligned as it asks for, between guard bytes
{
    struct alignas(C) Raw { unsigned char before[alignof(C) < 16 ? 16 : alignof(C)]; unsigned char at[sizeof(C)]; unsigned char after[16]; };
    Raw* raw = new Raw;
    C* p;
    template <class... X> explicit Own(X&&... x)
    {
        std::memset(static_cast<void*>(raw), 0xA5, sizeof(Raw));
        p = new (raw->at) C(std::forward<X>(x)...);
    }
    bool guards() const
    {
        for (auto b : raw->before) if (b != 0xA5) return false;
        for (auto b : raw->after) if (b != 0xA5) return false;
        return true;
    }
    ~Own() { p->~C(); delete raw; }
};
static std::string g_hist;
template <class F> static void all_sequences(const char* what, std::size_t nops, F&& run)
{
    std::size_t idx[DEPTH] = {};
    for (;;)
    {
        g_hist.clear();
        g_bad_this = false;
        g_current_op = what;
        const auto san0 = g_san_reports;
        const Event ev = guarded([&] { run(idx); });
        g_current_op = cat_str(what, ":", g_hist);
        if (ev.kind != EV_NONE) fail(SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
        MC_CHECK(!g_bad_this, SEM | LIFE, "a misaligned element was constructed, assigned or destroyed");
        MC_CHECK(g_san_reports == san0, SEM | LIFE | CRASH, "memory error / undefined behaviour");
        ++g_states;
        std::size_t d = 0;
        while (d < DEPTH && ++idx[d] == nops) idx[d++] = 0;
        if (d == DEPTH) break;
    }
}
#define MC_HERE(cond, ...) MC_CHECK(cond, SEM | LIFE, __VA_ARGS__, " after", g_hist)

// ---- sequences
template <class C, bool CIRC> static void seq(const char* what)
{
    using T = typename C::value_type;
    constexpr std::size_t CAP = C::static_max_size();
    for (int start : {0, 3})
        all_sequences(what, 12, [&](const std::size_t* idx)
        {
            std::unique_ptr<Own<C>> c(new Own<C>());
            std::deque<int> m;
            auto verify = [&]
            {
                MC_HERE(c->p->size() == m.size(), "size");
                std::vector<const T*> at;
                std::size_t i = 0;
                for (const T& x : std::as_const(*c->p)) { MC_HERE(i < m.size() && x.value() == m[i], "element ", (long)i); at.push_back(std::addressof(x)); ++i; }
                MC_HERE(i == m.size(), "iteration");
                const auto s = placed<int>(*c->p, at);
                MC_HERE(s.empty(), s);
                MC_HERE(c->guards(), "bytes outside of the container were written");
            };
            for (int i = 0; i < start; ++i) { c->p->push_back(T(i + 1)); m.push_back(i + 1); }
            g_hist = cat_str(" start ", start);
            for (int d = 0; d < DEPTH; ++d)
            {
                const int v = d + 2;
                const bool full = m.size() == CAP;
                if (full && !CIRC && (idx[d] <= 2 || idx[d] == 7)) continue;
                auto& x = *c->p;
                switch (idx[d])
                {
                case 0: g_hist += " push_back"; x.push_back(T(v)); if (full) m.pop_front(); m.push_back(v); break;
                case 1: { if (CIRC && full) continue; g_hist += " insert(1)"; const std::ptrdiff_t p = m.empty() ? 0 : 1; const T t(v); x.insert(std::next(x.cbegin(), p), t); m.insert(m.begin() + p, v); break; }
                case 2: { if (CIRC && full) continue; g_hist += " insert(begin)"; x.insert(x.cbegin(), T(v)); m.push_front(v); break; }
                case 3: if (m.empty()) continue; g_hist += " pop_back"; x.pop_back(); m.pop_back(); break;
                case 4: if (m.empty()) continue; g_hist += " erase(begin)"; x.erase(x.cbegin()); m.pop_front(); break;
                case 5: if (m.size() < 2) continue; g_hist += " erase(0,2)"; x.erase(x.cbegin(), std::next(x.cbegin(), 2)); m.erase(m.begin(), m.begin() + 2); break;
                case 6: g_hist += " resize(2)"; x.resize(2); while (m.size() > 2) m.pop_back(); while (m.size() < 2) m.push_back(0); break;
                case 7: if constexpr (requires { x.push_front(T(v)); }) { g_hist += " push_front"; x.push_front(T(v)); if (full) m.pop_back(); m.push_front(v); break; } else continue;
                case 8: if constexpr (requires { x.pop_front(); }) { if (m.empty()) continue; g_hist += " pop_front"; x.pop_front(); m.pop_front(); break; } else continue;
                case 9: { g_hist += " copy"; auto* n = new Own<C>(std::as_const(x)); c.reset(n); break; }
                case 10: { g_hist += " move"; auto* n = new Own<C>(std::move(x)); c.reset(n); break; }
                case 11: { g_hist += " assign"; auto* n = new Own<C>(); n->p->push_back(T(1)); *n->p = std::as_const(x); c.reset(n); break; }
                }
                ++g_transitions;
                verify();
            }
            verify();
        });
}
template <class T, std::size_t N> using Vec = fc::FixedVector<T, N>;
template <std::size_t S, std::size_t A, bool TRIV> static void seqs(const char* kind)
{
    using T = Blob<S, A, TRIV>;
    const std::string w = cat_str(kind, " of ", (long)sizeof(T), "-byte elements aligned to ", (long)alignof(T), TRIV ? "" : ", not trivially copyable");
#if KIND == 0
    seq<fc::FixedVector<T, 4>, false>(w.c_str());
#elif KIND == 1
    seq<fc::FixedDeque<T, 4>, false>(w.c_str());
#elif KIND == 2
    seq<fc::FixedCircularDeque<T, 4>, true>(w.c_str());
#elif KIND == 3
    seq<fc::FixedList<T, 4>, false>(w.c_str());
#endif
}

// ---- associative
template <class C, bool MAP> static void assoc(const char* what)
{
    using K = typename C::key_type;
    constexpr int NK = 5;
    auto key = [](int i) { if constexpr (std::is_enum_v<K>) { static const K a[] = {K::A, K::B, K::C, K::D, K::E}; return a[i]; } else return K(i); };
    auto kv = [](const K& k) { if constexpr (std::is_enum_v<K>) { static const K a[] = {K::A, K::B, K::C, K::D, K::E}; for (int i = 0; i < 5; ++i) if (a[i] == k) return i; return -1; } else return k.value(); };
    constexpr std::size_t CAP = C::static_max_size();
    for (int start : {0, 3})
        all_sequences(what, NK * 2 + 5, [&](const std::size_t* idx)
        {
            std::unique_ptr<Own<C>> c(new Own<C>());
            std::map<int, int> m;
            auto add = [&](C& x, int k, int v)
            {
                if constexpr (MAP) return x.try_emplace(key(k), typename C::mapped_type(v)).second;
                else { (void)v; return x.insert(key(k)).second; }
            };
            auto verify = [&]
            {
                MC_HERE(c->p->size() == m.size(), "size");
                std::vector<const K*> ka;
                std::map<int, int> seen;
                if constexpr (MAP)
                {
                    using V = typename C::mapped_type;
                    std::vector<const V*> va;
                    for (auto&& [k, v] : std::as_const(*c->p))
                    {
                        seen[kv(k)] = v.value();
                        if constexpr (!std::is_enum_v<K>) ka.push_back(std::addressof(k));
                        va.push_back(std::addressof(v));
                    }
                    const auto s = placed<int>(*c->p, va);
                    MC_HERE(s.empty(), "values: ", s);
                }
                else for (const K& k : std::as_const(*c->p)) { seen[kv(k)] = 0; ka.push_back(std::addressof(k)); }
                MC_HERE(seen == m, "content");
                const auto s = placed<int>(*c->p, ka);
                MC_HERE(s.empty(), "keys: ", s);
                for (int k = 0; k < NK; ++k) MC_HERE(c->p->contains(key(k)) == (m.count(k) != 0), "contains(", k, ")");
                MC_HERE(c->guards(), "bytes outside of the container were written");
            };
            for (int i = 0; i < start; ++i) { add(*c->p, (i * 2 + 3) % NK, i); m[(i * 2 + 3) % NK] = MAP ? i : 0; }
            g_hist = cat_str(" start ", start);
            for (int d = 0; d < DEPTH; ++d)
            {
                const int o = (int)idx[d];
                auto& x = *c->p;
                if (o < NK)
                {
                    if (m.size() == CAP && !m.count(o)) continue;
                    g_hist += cat_str(" insert(", o, ")");
                    const bool fresh = !m.count(o);
                    MC_HERE(add(x, o, d + 2) == fresh, "insertion result");
                    if (fresh) m[o] = MAP ? d + 2 : 0;
                }
                else if (o < 2 * NK) { g_hist += cat_str(" erase(", o - NK, ")"); MC_HERE(x.erase(key(o - NK)) == m.erase(o - NK), "erase"); }
                else switch (o - 2 * NK)
                {
                case 0: if (m.empty()) continue; { g_hist += " erase(begin)"; int k; if constexpr (MAP) k = kv(x.begin()->first); else k = kv(*x.begin()); m.erase(k); x.erase(x.begin()); } break;
                case 1: g_hist += " clear"; x.clear(); m.clear(); break;
                case 2: { g_hist += " copy"; auto* n = new Own<C>(std::as_const(x)); c.reset(n); break; }
                case 3: { g_hist += " move"; auto* n = new Own<C>(std::move(x)); c.reset(n); break; }
                case 4: { g_hist += " assign"; auto* n = new Own<C>(); add(*n->p, 4, 1); *n->p = std::as_const(x); c.reset(n); break; }
                }
                ++g_transitions;
                verify();
            }
            verify();
        });
}
enum class En5 { A, B, C, D, E };
template <std::size_t KS, std::size_t KA, std::size_t VS, std::size_t VA, bool TRIV> static void assocs(const char* kind)
{
    using K = Blob<KS, KA, TRIV>;
    using V = Blob<VS, VA, TRIV>;
    const std::string w = cat_str(kind, " with keys of ", (long)sizeof(K), " bytes aligned to ", (long)alignof(K), " and values of ", (long)sizeof(V), "/", (long)alignof(V), TRIV ? "" : ", not trivially copyable");
    using RB = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
    (void)sizeof(RB);
#if KIND == 4
    assoc<fc::FixedMap<K, V, 4>, true>(w.c_str());
    assoc<fc::FixedMap<K, V, 4, std::less<K>, RB::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, true>((w + ", contiguous").c_str());
#elif KIND == 5
    assoc<fc::FixedSet<K, 4>, false>(w.c_str());
    assoc<fc::FixedSet<K, 4, std::less<K>, RB::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>, false>((w + ", contiguous").c_str());
#elif KIND == 6
    assoc<fc::FixedUnorderedMap<K, V, 4, Hash>, true>(w.c_str());
#elif KIND == 7
    assoc<fc::FixedUnorderedSet<K, 4, Hash>, false>(w.c_str());
#elif KIND == 8
    assoc<fc::EnumMap<En5, V>, true>(w.c_str());
#endif
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
    static const char* kinds[] = {"FixedVector", "FixedDeque", "FixedCircularDeque", "FixedList", "FixedMap", "FixedSet", "FixedUnorderedMap", "FixedUnorderedSet", "EnumMap"};
    const char* k = kinds[KIND];
#if KIND < 4
    seqs<1, 1, true>(k); seqs<3, 1, true>(k); seqs<64, 64, true>(k); seqs<4097, 1, true>(k); seqs<1000, 4, true>(k);
    seqs<1, 1, false>(k); seqs<17, 1, false>(k); seqs<8, 32, false>(k); seqs<1000, 8, false>(k);
#else
    assocs<1, 1, 64, 64, true>(k); assocs<64, 64, 1, 1, true>(k); assocs<3, 1, 17, 1, true>(k); assocs<1000, 4, 1, 1, true>(k);
    assocs<1, 1, 1, 1, false>(k); assocs<17, 1, 32, 32, false>(k); assocs<8, 32, 1000, 8, false>(k);
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
