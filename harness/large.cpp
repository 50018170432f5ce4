// Containers of realistic and of awkward capacities (around 128, 256 and 65536, where index types change):
// all sequences of DEPTH phases out of an alphabet of bulk runs, compared with std after every phase.
// -DKIND_x -DCAP=<n> -DDEPTH=<n> [-DELEM=int|Nt] [-DHASH_x]
#define MC_HANG_TICKS 80
#include "mc.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace mc;
namespace fc = fixed_containers;
#ifndef ELEM
#define ELEM int
#endif
static long g_nt_live = 0;
struct Nt
{
    int v;
    Nt(int x = 0) : v(x) { ++g_nt_live; }
    Nt(const Nt& o) : v(o.v) { ++g_nt_live; }
    Nt(Nt&& o) noexcept : v(o.v) { ++g_nt_live; o.v = MOVEDV; }
    Nt& operator=(const Nt& o) { v = o.v; return *this; }
    Nt& operator=(Nt&& o) noexcept { const int t = o.v; o.v = MOVEDV; v = t; return *this; }
    ~Nt() { --g_nt_live; v = DEADV; }
    friend bool operator==(const Nt& a, const Nt& b) { return a.v == b.v; }
    friend auto operator<=>(const Nt& a, const Nt& b) { return a.v <=> b.v; }
};
static int num(int x) { return x; }
static int num(char x) { return x; }
static int num(const Nt& x) { return x.v; }
using E = ELEM;
constexpr bool NT = std::is_same_v<E, Nt>;
constexpr std::size_t ALL = CAP;

// ------------------------------------------------------------------ containers
#if defined(KIND_VECTOR)
using C = fc::FixedVector<E, CAP>;
#elif defined(KIND_DEQUE)
using C = fc::FixedDeque<E, CAP>;
#elif defined(KIND_CIRC)
using C = fc::FixedCircularDeque<E, CAP>;
#elif defined(KIND_LIST)
using C = fc::FixedList<E, CAP>;
#elif defined(KIND_STRING)
using C = fc::FixedString<CAP>;
#elif defined(KIND_STACK)
using C = fc::FixedStack<E, CAP>;
#elif defined(KIND_QUEUE)
using C = fc::FixedQueue<E, CAP>;
#elif defined(KIND_MAP)
using C = fc::FixedMap<E, int, CAP>;
#elif defined(KIND_SET)
using C = fc::FixedSet<E, CAP>;
#else
struct Hash
{
    using is_avalanching = void;
    std::uint64_t operator()(const E& e) const
    {
#if defined(HASH_CONST)
        return 0;
#elif defined(HASH_ID)
        return (std::uint64_t)num(e) << 8;
#elif defined(HASH_CLUSTER)  // 8 home buckets next to each other
        return ((std::uint64_t)num(e) % 8) << 8;
#else  // HASH_FP: one home bucket, fingerprints differ
        return (std::uint64_t)num(e) % 256;
#endif
    }
};
#ifdef HASH_DEFAULT
using HH = fc::wyhash::hash<E>;
#else
using HH = Hash;
#endif
#if defined(KIND_UMAP)
using C = fc::FixedUnorderedMap<E, int, CAP, HH>;
#else
using C = fc::FixedUnorderedSet<E, CAP, HH>;
#endif
#endif

#if defined(KIND_VECTOR) || defined(KIND_DEQUE) || defined(KIND_CIRC) || defined(KIND_LIST) || defined(KIND_STRING)
#define SEQ 1
#ifdef KIND_STRING
#define FRONT 0
static char el(int v) { return (char)('a' + (v % 26 + 26) % 26); }
static int mv(int v) { return el(v); }
#else
static E el(int v) { return E(v); }
static int mv(int v) { return v; }
#ifdef KIND_VECTOR
#define FRONT 0
#else
#define FRONT 1
#endif
#endif
using M = std::deque<int>;
#ifdef KIND_LIST
#define RANDOM 0
#else
#define RANDOM 1
#endif
static const char* PH[] = {"fill at the back", "push_back a third", "fill at the front", "pop_back half", "take a third off the front", "erase the middle third",
                           "insert a range in the middle", "erase all multiples of three", "insert copies in the middle", "rotate forwards twice around", "rotate backwards twice around",
                           "resize to half and to full", "assign a range", "clear", "single inserts and erases in the middle"};
constexpr int NPH = 15;
static int g_next = 1;
static void phase(C& c, M& m, int ph)
{
    auto at = [&](std::size_t i) { return std::next(c.begin(), (long)i); };
    auto pushb = [&] { const int v = g_next++; c.push_back(el(v)); m.push_back(mv(v)); if (m.size() > ALL) m.pop_front(); };
    auto popf = [&]
    {
#if FRONT
        c.pop_front();
#else
        c.erase(c.begin());
#endif
        m.pop_front();
    };
    auto pushf = [&]
    {
        const int v = g_next++;
#if FRONT
        c.push_front(el(v));
        m.push_front(mv(v));
        if (m.size() > ALL) m.pop_back();
#else
        c.insert(c.begin(), el(v));
        m.push_front(mv(v));
#endif
    };
    auto popb = [&] { c.pop_back(); m.pop_back(); };
    const std::size_t n = m.size(), room = ALL - n;
    switch (ph)
    {
    case 0: for (std::size_t i = 0; i < room; ++i) pushb(); break;
    case 1: for (std::size_t i = 0; i < std::min(room, ALL / 3); ++i) pushb(); break;
    case 2: for (std::size_t i = 0; i < (FRONT ? room : std::min<std::size_t>(room, 40)); ++i) pushf(); break;
    case 3: for (std::size_t i = 0; i < n / 2; ++i) popb(); break;
    case 4:
        if (FRONT || n < 100) for (std::size_t i = 0; i < n / 3; ++i) popf();
        else { c.erase(c.begin(), at(n / 3)); m.erase(m.begin(), m.begin() + (long)(n / 3)); }
        break;
    case 5:
    {
        auto it = c.erase(at(n / 3), at(n - n / 3));
        m.erase(m.begin() + (long)(n / 3), m.begin() + (long)(n - n / 3));
        MC_CHECK((std::size_t)std::distance(c.begin(), it) == n / 3, SEM, "erase returned another position");
        break;
    }
    case 6:
    {
        std::vector<std::remove_cvref_t<decltype(el(0))>> w;
        std::vector<int> mw;
        for (std::size_t i = 0; i < room / 2; ++i) { w.push_back(el(g_next)); mw.push_back(mv(g_next++)); }
        auto it = c.insert(at(n / 2), w.begin(), w.end());
        m.insert(m.begin() + (long)(n / 2), mw.begin(), mw.end());
        MC_CHECK((std::size_t)std::distance(c.begin(), it) == n / 2, SEM, "insert returned another position");
        break;
    }
    case 7:
    {
#ifdef KIND_STRING
        std::size_t k = 0;
        for (auto it = c.begin(); it != c.end();) if (num(*it) % 3 == 0) { it = c.erase(it); ++k; } else ++it;
#else
        const std::size_t k = fc::erase_if(c, [](const auto& e) { return num(e) % 3 == 0; });
#endif
        MC_CHECK(k == std::erase_if(m, [](int v) { return v % 3 == 0; }), SEM, "erase_if count");
        break;
    }
    case 8:
    {
        const int v = g_next++;
#if defined(KIND_STRING)
        for (std::size_t i = 0; i < std::min<std::size_t>(room, 30); ++i) { c.insert(at(n / 2), el(v)); m.insert(m.begin() + (long)(n / 2), mv(v)); }
#else
        const std::vector<E> w(room, el(v));
        c.insert(at(n / 2), w.begin(), w.end());
        m.insert(m.begin() + (long)(n / 2), room, mv(v));
#endif
        break;
    }
    case 9:
        if (m.empty()) pushb();
        for (std::size_t i = 0; i < (FRONT ? 2 * ALL + 3 : 20); ++i) { popf(); pushb(); }
        break;
    case 10:
        if (m.empty()) pushb();
        for (std::size_t i = 0; i < (FRONT ? 2 * ALL + 3 : 20); ++i) { popb(); pushf(); }
        break;
    case 11:
        c.resize(n / 2);
        m.resize(n / 2);
        MC_CHECK(c.size() == n / 2, SEM, "resize");
        c.resize(ALL, el(7));
        m.resize(ALL, mv(7));
        break;
    case 12:
    {
        std::vector<std::remove_cvref_t<decltype(el(0))>> w;
        m.clear();
        for (std::size_t i = 0; i < ALL - (ALL > 3 ? 3 : 0); ++i) { w.push_back(el(g_next)); m.push_back(mv(g_next++)); }
        c.assign(w.begin(), w.end());
        break;
    }
    case 13: c.clear(); m.clear(); break;
    case 14:
        for (std::size_t i = 0; i < 12; ++i)
        {
            const std::size_t k = m.size();
            if (k > 0) { c.erase(at(k / 2)); m.erase(m.begin() + (long)(k / 2)); }
            if (m.size() + 1 <= ALL) { const int v = g_next++; c.insert(at(k / 3), el(v)); m.insert(m.begin() + (long)(k / 3), mv(v)); }
        }
        break;
    }
}
static void check(C& c, const M& m)
{
    MC_CHECK(c.size() == m.size() && c.empty() == m.empty(), SEM, "size ", (long)c.size(), " expected ", (long)m.size());
    std::size_t i = 0;
    bool ok = true;
    for (auto it = c.begin(); it != c.end() && i <= m.size(); ++it, ++i) ok = ok && i < m.size() && num(*it) == m[i];
    MC_CHECK(ok && i == m.size(), SEM | ITER, "content differs");
    i = m.size();
    for (auto it = c.rbegin(); it != c.rend() && ok && i > 0; ++it) ok = num(*it) == m[--i];
    MC_CHECK(ok && i == 0, SEM | ITER, "reverse content differs");
    if (!m.empty()) MC_CHECK(num(c.front()) == m.front() && num(c.back()) == m.back(), SEM, "front/back");
#if RANDOM
    for (i = 0; i < m.size() && ok; ++i)
    {
        ok = num(c[i]) == m[i] && num(std::as_const(c).at(i)) == m[i] && num(*(c.begin() + (long)i)) == m[i] && num(*(c.end() - (long)(m.size() - i))) == m[i] && num(c.begin()[(long)i]) == m[i];
        ok = ok && (c.begin() + (long)i) - c.begin() == (long)i && c.end() - (c.begin() + (long)i) == (long)(m.size() - i) && (c.begin() + (long)i) < c.end();
    }
    MC_CHECK(ok, SEM | ITER, "random access");
#endif
#ifdef KIND_STRING
    MC_CHECK(std::strlen(c.c_str()) == m.size() && c.data()[m.size()] == 0, SEM | NULTERM, "terminator");
#endif
#if defined(KIND_VECTOR) || defined(KIND_STRING)
    MC_CHECK(m.empty() || (&*c.begin() == c.data() && &c.back() == c.data() + m.size() - 1), SEM | ITER, "data()");
#endif
    C* d = new C(c);
    MC_CHECK(*d == c && (*d <=> c) == std::strong_ordering::equal, CMP | COPY, "copy differs");
    if (!m.empty())
    {
        const auto keep = d->back();
        d->back() = el(num(keep) + 1);
        MC_CHECK(!(*d == c) && ((*d <=> c) == (num(d->back()) <=> m.back())), CMP, "comparison of different contents");
        MC_CHECK(num(c.back()) == m.back(), COPY | SEM, "the copy shares elements");
        d->pop_back();
        MC_CHECK(!(*d == c) && *d < c, CMP, "comparison with a prefix");
        d->push_back(keep);
        MC_CHECK(*d == c, CMP | COPY, "copy differs after changes");
    }
    C* e = new C(std::move(*d));
    MC_CHECK(*e == c, COPY, "moved content differs");
    delete d;
    delete e;
}
static std::map<int, const void*> addresses(C& c)
{
    std::map<int, const void*> r;
#ifdef KIND_LIST
    std::map<int, int> k;
    for (auto& e : c) ++k[num(e)];
    for (auto& e : c) if (k[num(e)] == 1) r[num(e)] = &e;
#endif
    (void)c;
    return r;
}
#elif defined(KIND_STACK) || defined(KIND_QUEUE)
using M = std::deque<int>;
static const char* PH[] = {"fill", "push a third", "pop half", "pop all", "push/pop twice around"};
constexpr int NPH = 5;
static int g_next = 1;
static void phase(C& c, M& m, int ph)
{
    auto push = [&] { const int v = g_next++; if (v & 1) c.push(E(v)); else (void)c.emplace(v); m.push_back(v); };
    auto pop = [&]
    {
        c.pop();
#ifdef KIND_STACK
        m.pop_back();
#else
        m.pop_front();
#endif
    };
    const std::size_t n = m.size(), room = ALL - n;
    switch (ph)
    {
    case 0: for (std::size_t i = 0; i < room; ++i) push(); break;
    case 1: for (std::size_t i = 0; i < std::min(room, ALL / 3); ++i) push(); break;
    case 2: for (std::size_t i = 0; i < n / 2; ++i) pop(); break;
    case 3: for (std::size_t i = 0; i < n; ++i) pop(); break;
    case 4: for (std::size_t i = 0; i < 2 * ALL + 3; ++i) { if (m.size() < ALL) push(); if (m.size() > 1) pop(); } break;
    }
}
static void check(C& c, const M& m)
{
    MC_CHECK(c.size() == m.size() && c.empty() == m.empty(), SEM, "size");
    C* d = new C(c);
    MC_CHECK(*d == c, CMP | COPY, "copy differs");
    bool ok = true;
    M w = m;
    while (!w.empty() && ok)
    {
#ifdef KIND_STACK
        ok = num(d->top()) == w.back();
        w.pop_back();
#else
        ok = num(d->front()) == w.front() && num(d->back()) == w.back();
        w.pop_front();
#endif
        d->pop();
    }
    MC_CHECK(ok && d->empty(), SEM, "order of elements");
    MC_CHECK(c.size() == m.size(), COPY, "the copy shares its content");
    delete d;
}
static std::map<int, const void*> addresses(C&) { return {}; }
#else
#if defined(KIND_MAP) || defined(KIND_UMAP)
#define MAPLIKE 1
#else
#define MAPLIKE 0
#endif
#if defined(KIND_MAP) || defined(KIND_SET)
#define ORDERED 1
#else
#define ORDERED 0
#endif
using M = std::map<int, int>;
static const char* PH[] = {"insert ascending until full", "insert descending until full", "insert in strides until full", "insert a third", "erase every other key", "erase a key range", "erase positions from the middle",
                           "erase_if multiples of three", "insert existing and assign", "replace oldest keys twice around", "clear", "copy-assign a small one and back"};
constexpr int NPH = 12;
static int g_next = 1;
static void put(C& c, M& m, int k, bool assign = false)
{
    const int v = g_next++;
    const bool fresh = !m.count(k);
    if (fresh && m.size() >= ALL) return;
#if MAPLIKE
    auto [it, ins] = assign ? c.insert_or_assign(E(k), v) : c.try_emplace(E(k), v);
    if (fresh || assign) m[k] = v;
    MC_CHECK(ins == fresh && num(it->first) == k && it->second == m[k], SEM, "insertion returned something else");
#else
    auto [it, ins] = c.insert(E(k));
    m.emplace(k, 0);
    MC_CHECK(ins == fresh && num(*it) == k, SEM, "insertion returned something else");
#endif
    (void)assign;
    (void)v;
}
static int keyof(const auto& e)
{
#if MAPLIKE
    return num(e.first);
#else
    return num(e);
#endif
}
static void phase(C& c, M& m, int ph)
{
    const int lo = m.empty() ? 0 : m.begin()->first, hi = m.empty() ? 0 : m.rbegin()->first;
    switch (ph)
    {
    case 0: for (int k = hi + 1; m.size() < ALL; ++k) put(c, m, k); break;
    case 1: for (int k = lo - 1; m.size() < ALL; --k) put(c, m, k); break;
    case 2: for (long i = 1; m.size() < ALL; ++i) put(c, m, (int)(i * 7919 % 1000003)); break;
    case 3: for (std::size_t i = 0; i < ALL / 3; ++i) put(c, m, (int)((i * 37) % (ALL * 2))); break;
    case 4:
        for (auto it = m.begin(); it != m.end();)
        {
            MC_CHECK(c.erase(E(it->first)) == 1, SEM, "erase(key) count");
            it = m.erase(it);
            if (it != m.end()) ++it;
        }
        break;
    case 5:
    {
        if (m.empty()) return;
        auto a = std::next(c.begin(), (long)(m.size() / 3)), b = std::next(c.begin(), (long)(m.size() - m.size() / 3));
        for (auto it = a; it != b; ++it) m.erase(keyof(*it));
        auto r = c.erase(a, b);
        std::size_t left = 0;
        for (; r != c.end() && left <= ALL; ++r) ++left;
        MC_CHECK(left <= m.size(), SEM, "erase(range) result");
        break;
    }
    case 6:
    {
        auto it = std::next(c.begin(), (long)(m.size() / 2));
        for (std::size_t i = 0; i < ALL / 4 && it != c.end(); ++i) { m.erase(keyof(*it)); it = c.erase(it); }
        break;
    }
    case 7:
    {
        const std::size_t k = fc::erase_if(c, [](const auto& e) { return keyof(e) % 3 == 0; });
        MC_CHECK(k == std::erase_if(m, [](const auto& e) { return e.first % 3 == 0; }), SEM, "erase_if count");
        break;
    }
    case 8:
    {
        std::vector<int> ks;
        for (auto& [k, v] : m) ks.push_back(k);
        for (std::size_t i = 0; i < ks.size(); ++i) put(c, m, ks[i], i % 2);
        break;
    }
    case 9:
    {
        std::deque<int> q;
        for (auto&& e : c) q.push_back(keyof(e));
        int k = hi;
        for (std::size_t i = 0; i < 2 * ALL + 3 && !q.empty(); ++i)
        {
            MC_CHECK(c.erase(E(q.front())) == 1, SEM, "erase(key) count");
            m.erase(q.front());
            q.pop_front();
            put(c, m, ++k);
            q.push_back(k);
        }
        break;
    }
    case 10: c.clear(); m.clear(); break;
    case 11:
    {
        C* k = new C(c);
        C* e = new C();
        e->clear();
        c = *e;
        MC_CHECK(c.empty(), COPY | SEM, "assignment");
        c = std::move(*k);
        delete k;
        delete e;
        break;
    }
    }
}
static void check(C& c, const M& m)
{
    MC_CHECK(c.size() == m.size() && c.empty() == m.empty(), SEM, "size ", (long)c.size(), " expected ", (long)m.size());
    bool ok = true;
    std::size_t n = 0;
#if ORDERED
    auto mi = m.begin();
    for (auto it = c.begin(); it != c.end() && mi != m.end() && ok; ++it, ++mi, ++n)
    {
        ok = keyof(*it) == mi->first;
#if MAPLIKE
        ok = ok && it->second == mi->second;
#endif
    }
    auto ri = m.rbegin();
    for (auto it = c.rbegin(); it != c.rend() && ri != m.rend() && ok; ++it, ++ri) ok = keyof(*it) == ri->first;
    MC_CHECK(ok && n == m.size(), SEM | ITER, "content differs");
#else
    std::set<int> seen;
    for (auto it = c.begin(); it != c.end() && n <= ALL && ok; ++it, ++n)
    {
        auto f = m.find(keyof(*it));
        ok = f != m.end() && seen.insert(keyof(*it)).second;
#if MAPLIKE
        ok = ok && it->second == f->second;
#endif
    }
    MC_CHECK(ok && n == m.size(), SEM | ITER, "content differs");
#endif
    auto probe = [&](int k)
    {
        const bool has = m.count(k) != 0;
        auto it = c.find(E(k));
        ok = ok && c.contains(E(k)) == has && c.count(E(k)) == (has ? 1u : 0u) && (it != c.end()) == has && (!has || keyof(*it) == k);
#if ORDERED
        auto l = c.lower_bound(E(k)), u = c.upper_bound(E(k));
        auto ml = m.lower_bound(k), mu = m.upper_bound(k);
        ok = ok && (l == c.end()) == (ml == m.end()) && (u == c.end()) == (mu == m.end());
        ok = ok && (ml == m.end() || keyof(*l) == ml->first) && (mu == m.end() || keyof(*u) == mu->first);
#endif
        ++g_checks;
    };
    if (ALL <= 1000) for (int k = (m.empty() ? 0 : m.begin()->first) - 1, e = std::min(k + 3 * (int)ALL + 3, k + 2000); k < e && ok; ++k) probe(k);
    for (auto& [k, v] : m) { probe(k); if (!ok) break; }
    MC_CHECK(ok, SEM, "lookup");
    C* d = new C(c);
    MC_CHECK(*d == c, CMP | COPY, "copy differs");
    if (!m.empty())
    {
        const int k = m.begin()->first;
        d->erase(E(k));
        MC_CHECK(!(*d == c), CMP, "comparison of different contents");
        MC_CHECK(c.contains(E(k)) && !d->contains(E(k)), COPY | SEM, "the copy shares elements");
#if MAPLIKE
        d->try_emplace(E(k), m.begin()->second);
#else
        d->insert(E(k));
#endif
        MC_CHECK(*d == c, CMP | COPY, "copy differs after changes");
    }
    C* e = new C(std::move(*d));
    MC_CHECK(*e == c, COPY, "moved content differs");
    delete d;
    delete e;
}
static std::map<int, const void*> addresses(C& c)
{
    std::map<int, const void*> r;
    for (auto&& e : c)
#if MAPLIKE
        r[keyof(e)] = &e.second;
#else
        r[keyof(e)] = &e;
#endif
    return r;
}
#endif

static std::vector<int> g_seq;
static std::string seq_name()
{
    std::string o;
    for (int p : g_seq) o += std::string(PH[p]) + "; ";
    return o;
}
static void dfs(const C& c, const M& m, int left)
{
    for (int p = 0; p < NPH; ++p)
    {
        g_seq.push_back(p);
        g_current_op = seq_name();
        C* d = nullptr;
        M w = m;
        const Event ev = guarded([&]
        {
            if constexpr (std::is_trivially_copyable_v<C>)
            {
                if ((g_mask & RELOC) != 0)
                {
                    void* raw = ::operator new(sizeof(C), std::align_val_t(alignof(C)));
                    std::memcpy(raw, (const void*)&c, sizeof(C));
                    d = static_cast<C*>(raw);
                    g_op_kind = RELOC;
                }
            }
            if (d == nullptr) d = new C(c);
            const auto before = addresses(*d);
            phase(*d, w, p);
            // survivors of node-like containers stay where they are (clearing and whole assignments aside)
            if (!before.empty() && std::string(PH[p]).find("assign") == std::string::npos && std::string(PH[p]).find("copy") == std::string::npos &&
                std::string(PH[p]).find("rotate") == std::string::npos && std::string(PH[p]).find("twice") == std::string::npos && std::string(PH[p]) != "resize to half and to full")
            {
                for (auto& [k, a] : addresses(*d))
                {
                    auto f = before.find(k);
                    if (f != before.end()) MC_CHECK(f->second == a, STAB, "a surviving element moved");
                }
            }
            const long live0 = g_nt_live;
            check(*d, w);
            MC_CHECK(g_nt_live == live0, LIFE, "elements leaked by copies");
        });
        ++g_transitions;
        if (ev.kind != EV_NONE) fail(SEM | CRASH | CHK | LIFE, cat_str("ended with ", ev_name(ev.kind)));
        ++g_states;
        if (left > 1) dfs(*d, w, left - 1);
        g_seq.pop_back();
        if (std::is_trivially_copyable_v<C> && (g_mask & RELOC) != 0) ::operator delete((void*)d, std::align_val_t(alignof(C)));
        else
        {
            const long live0 = g_nt_live;
            const long sz = (long)d->size();
            const bool had = NT;
            delete d;
            MC_CHECK(!had || live0 - g_nt_live == sz, LIFE, "destruction of a container of ", sz, " elements destroyed ", live0 - g_nt_live);
        }
    }
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(seq_name()) + "\"]}"; };
    C* c = new C();
    dfs(*c, M{}, DEPTH);
    delete c;
    MC_CHECK(g_nt_live == 0, LIFE, "elements left behind");
    g_notes["enumerated"] = 1;
    finish(0);
}
