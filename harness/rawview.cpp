// Raw (type-erased) views against the containers themselves, in every reachable state of small containers
// over a grid of element sizes/alignments, capacities, index widths, node storages and colour layouts.
// -DPART=0 deque, 1 lists, 2 unordered, 3 ordered
#include "mc.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_deque_raw_view.hpp"
#include "fixed_containers/fixed_doubly_linked_list.hpp"
#include "fixed_containers/fixed_doubly_linked_list_raw_view.hpp"
#include "fixed_containers/fixed_map_raw_view.hpp"
#include "fixed_containers/fixed_red_black_tree_view.hpp"
#include "fixed_containers/fixed_unordered_map_raw_view.hpp"
#include "fixed_containers/fixed_unordered_set_raw_view.hpp"
using namespace mc;
namespace fc = fixed_containers;
namespace dl = fixed_containers::fixed_doubly_linked_list_detail;
namespace rb = fixed_containers::fixed_red_black_tree_detail;

template <std::size_t SZ, std::size_t AL>
struct alignas(AL) El
{
    unsigned char b[SZ];
    constexpr El() : b{} {}
    constexpr El(int v) : b{} { b[0] = (unsigned char)v; }
    bool operator==(const El& o) const { return b[0] == o.b[0]; }
    bool operator<(const El& o) const { return b[0] < o.b[0]; }
};
struct H
{
    template <std::size_t S, std::size_t A>
    std::uint64_t operator()(const El<S, A>& e) const { return (std::uint64_t)e.b[0] % 2; }
};

static std::uint64_t g_configs = 0;
// Explore every state reachable with `ops` (number of them given); check each.
template <class C, class OpF, class CheckF, class NameF>
void explore(const std::string& name, int nops, OpF&& opf, CheckF&& check, NameF&& opname, int max_depth, std::size_t max_states)
{
    ++g_configs;
    static_assert(std::is_trivially_copyable_v<C>);
    struct alignas(alignof(C) > 64 ? alignof(C) : 64) Buf { unsigned char b[sizeof(C)]; };
    static Buf buf;
    struct N { std::string bytes; int parent, op, depth; };
    std::vector<N> q;
    std::unordered_set<std::string> seen;
    C& c = *reinterpret_cast<C*>(buf.b);
    std::memset(buf.b, 0xA5, sizeof buf.b);
    auto path = [&](int n, int last)
    {
        std::string o;
        for (; n > 0; n = q[(std::size_t)n].parent) o = opname(q[(std::size_t)n].op) + "; " + o;
        if (last >= 0) o += opname(last);
        return name + ": " + o;
    };
    auto visit = [&](int parent, int op, int depth)
    {
        ++g_transitions;
        std::string k(reinterpret_cast<char*>(buf.b), sizeof buf.b);
        if (!seen.insert(k).second) return;
        ++g_states;
        g_current_op = path(parent, op);
        const auto san0 = g_san_reports;
        const auto al0 = g_allocs;
        const Event ev = guarded([&] { check(std::as_const(c)); });
        if (ev.kind != EV_NONE) fail(VIEW | CRASH, cat_str("the view ended with ", ev_name(ev.kind)));
        MC_CHECK(g_san_reports == san0, VIEW | LIFE | CRASH, "memory error / undefined behaviour in the view");
        MC_CHECK(g_allocs == al0, ALLOC, "allocation");
        q.push_back(N{k, parent, op, depth});
    };
    new (buf.b) C();
    visit(0, -1, 0);
    bool capped = false;
    for (std::size_t i = 0; i < q.size(); ++i)
    {
        if (q[i].depth >= max_depth || q.size() > max_states) { capped = true; continue; }
        for (int o = 0; o < nops; ++o)
        {
            std::memcpy(buf.b, q[i].bytes.data(), sizeof buf.b);
            bool en = false;
            const Event ev = guarded([&] { en = opf(c, o); });
            if (ev.kind != EV_NONE || !en) continue;  // misbehaving operations are other properties' business
            visit((int)i, o, q[i].depth + 1);
        }
    }
    ++g_notes["runs"];
    if (!capped) ++g_notes["closed"];
}

// One structured history through a big container: fill, thin out, refill, drain; checked after every step.
template <class C, class OpF, class CheckF>
void linear(const std::string& name, const std::vector<int>& ops, OpF&& opf, CheckF&& check)
{
    ++g_configs;
    C* c = new C();
    int step = 0;
    for (int o : ops)
    {
        ++step;
        bool en = false;
        Event ev = guarded([&] { en = opf(*c, o); });
        if (ev.kind != EV_NONE || !en) continue;
        ++g_transitions;
        ++g_states;
        g_current_op = cat_str(name, ": structured history, step ", step);
        const auto san0 = g_san_reports;
        ev = guarded([&] { check(std::as_const(*c)); });
        if (ev.kind != EV_NONE) fail(VIEW | CRASH, cat_str("the view ended with ", ev_name(ev.kind)));
        MC_CHECK(g_san_reports == san0, VIEW | LIFE | CRASH, "memory error / undefined behaviour in the view");
    }
    delete c;
}
// keyed containers: operation 2k inserts k, 2k+1 erases it
inline std::vector<int> keyed_history(int n)
{
    std::vector<int> o;
    for (int i = 0; i < n; ++i) o.push_back(2 * ((i * 37) % n));
    for (int i = 0; i < n; i += 2) o.push_back(2 * i + 1);
    for (int i = n - 1; i >= 0; --i) o.push_back(2 * i);
    for (int i = 0; i < n; ++i) o.push_back(2 * ((i * 11) % n) + 1);
    return o;
}

#if PART == 0
template <class E, std::size_t CAP, template <class, std::size_t> class D>
void deque_one(const char* what)
{
    using C = D<E, CAP>;
    auto check = [](const C& c)
    {
        auto run = [&]<class IX>(IX)
        {
            const fc::FixedDequeRawView<IX> v(static_cast<const void*>(&c), sizeof(E), alignof(E), CAP);
            MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
            auto it = v.begin();
            IX i = 0;
            for (const E& e : c)
            {
                MC_CHECK(it != v.end(), VIEW, "ends early");
                MC_CHECK(*it == reinterpret_cast<const std::byte*>(&e), VIEW, "entry ", (long)i, " does not denote the element");
                MC_CHECK(v.value_at(i) == reinterpret_cast<const std::byte*>(&e), VIEW, "value_at(", (long)i, ")");
                auto old = it++;
                MC_CHECK(*old == reinterpret_cast<const std::byte*>(&e) && old != it, VIEW, "post-increment");
                ++i;
            }
            MC_CHECK(it == v.end(), VIEW, "does not end with the container");
            MC_CHECK((v.begin() == v.end()) == c.empty(), VIEW, "begin()==end()");
        };
        run(std::size_t{});
        run(std::uint8_t{});
        run(std::uint32_t{});
    };
    auto opf = [](C& c, int o)
    {
        switch (o)
        {
        case 0: if (c.size() == CAP) return false; c.push_back(E(1)); return true;
        case 1: if (c.size() == CAP) return false; c.push_front(E(2)); return true;
        case 2: if (c.empty()) return false; c.pop_back(); return true;
        case 3: if (c.empty()) return false; c.pop_front(); return true;
        case 4: if (c.empty()) return false; c.erase(c.begin() + (long)c.size() / 2); return true;
        case 5: c.clear(); return true;
        default: if (c.size() == CAP) return false; c.insert(c.begin() + (long)c.size() / 2, E(3)); return true;
        }
    };
    static const char* nm[] = {"push_back", "push_front", "pop_back", "pop_front", "erase middle", "clear", "insert middle"};
    if constexpr (CAP > 16)
    {
        std::vector<int> h;
        for (int i = 0; i < (int)CAP; ++i) h.push_back(0);
        for (int i = 0; i < 3 * (int)CAP / 2; ++i) { h.push_back(3); h.push_back(0); }
        for (int i = 0; i < 3 * (int)CAP; ++i) { h.push_back(2); h.push_back(1); }
        for (int i = 0; i < (int)CAP; ++i) { h.push_back(i % 3 ? 2 : 4); }
        linear<C>(cat_str(what, "<", (long)CAP, ">"), h, opf, check);
    }
    else
    explore<C>(cat_str(what, "<size ", (long)sizeof(E), " align ", (long)alignof(E), ", ", (long)CAP, ">"), 7, opf, check, [](int o) { return o < 0 ? std::string() : std::string(nm[o]); }, 2 * (int)CAP + 5, 3000);
}
template <class E, std::size_t N> using DQ = fc::FixedDeque<E, N>;
template <class E, std::size_t N> using CQ = fc::FixedCircularDeque<E, N>;
template <std::size_t SZ, std::size_t AL>
void deque_all()
{
    deque_one<El<SZ, AL>, 1, DQ>("deque");
    deque_one<El<SZ, AL>, 2, DQ>("deque");
    deque_one<El<SZ, AL>, 3, DQ>("deque");
    deque_one<El<SZ, AL>, 7, DQ>("deque");
    deque_one<El<SZ, AL>, 3, CQ>("circular deque");
}
#define ALL(F) F<1, 1>(); F<3, 1>(); F<2, 2>(); F<6, 2>(); F<4, 4>(); F<12, 4>(); F<8, 8>(); F<24, 8>(); F<16, 16>(); F<64, 32>(); F<7, 1>();
void all() { ALL(deque_all) deque_one<El<12, 4>, 100, DQ>("deque"); deque_one<El<3, 1>, 67, CQ>("circular deque"); }
#elif PART == 1
template <class E, std::size_t CAP, class IX>
void list_one()
{
    using C = dl::FixedDoublyLinkedList<E, CAP, IX>;
    auto check = [](const C& c)
    {
        const dl::FixedDoublyLinkedListRawView<IX> v(static_cast<const void*>(&c), sizeof(E), alignof(E), CAP);
        MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
        auto it = v.begin();
        std::size_t n = 0;
        for (IX i = c.front_index(); i != (IX)CAP && n <= CAP; i = c.next_of(i), ++n)
        {
            MC_CHECK(it != v.end(), VIEW, "ends early");
            MC_CHECK(*it == reinterpret_cast<const std::byte*>(&c.at(i)), VIEW, "entry ", (long)n, " does not denote the element");
            MC_CHECK(v.value_at(i) == *it, VIEW, "value_at");
            it++;
        }
        MC_CHECK(it == v.end(), VIEW, "does not end with the container");
        MC_CHECK((v.begin() == v.end()) == (c.size() == 0), VIEW, "begin()==end()");
    };
    auto opf = [](C& c, int o)
    {
        auto at = [&](int k) { IX i = c.front_index(); while (k-- > 0) i = c.next_of(i); return i; };
        const int n = (int)c.size();
        if (o <= (int)CAP) { if (n == (int)CAP || o > n) return false; c.emplace_before_index_and_return_index(o == n ? (IX)CAP : at(o), E(1)); return true; }
        if (o <= 2 * (int)CAP) { const int k = o - (int)CAP - 1; if (k >= n) return false; c.delete_at_and_return_next_index(at(k)); return true; }
        c.clear();
        return true;
    };
    if constexpr (CAP > 16)
    {
        std::vector<int> h;
        for (int i = 0; i < (int)CAP; ++i) h.push_back((i * 7) % (i + 1));
        for (int i = 0; i < (int)CAP / 2; ++i) h.push_back((int)CAP + 1 + i % 5);
        for (int i = 0; i < (int)CAP / 2; ++i) h.push_back(i % 3);
        for (int i = 0; i < (int)CAP; ++i) h.push_back((int)CAP + 1);
        linear<C>(cat_str("linked list<", (long)CAP, ">"), h, opf, check);
    }
    else
    explore<C>(cat_str("linked list<size ", (long)sizeof(E), " align ", (long)alignof(E), ", ", (long)CAP, ", index ", (long)sizeof(IX), ">"), 2 * (int)CAP + 2, opf, check,
               [](int o) { return o < 0 ? std::string() : o <= (int)CAP ? cat_str("insert at ", o) : o <= 2 * (int)CAP ? cat_str("erase at ", o - (int)CAP - 1) : std::string("clear"); }, CAP <= 3 ? 1000 : 8, 3000);
}
template <class E, std::size_t CAP>
void flist_one()
{
    using C = fc::FixedList<E, CAP>;
    auto check = [](const C& c)
    {
        const dl::FixedDoublyLinkedListRawView<std::size_t> v(static_cast<const void*>(&c), sizeof(E), alignof(E), CAP);
        MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
        auto it = v.begin();
        for (const E& e : c)
        {
            MC_CHECK(it != v.end(), VIEW, "ends early");
            MC_CHECK(*it == reinterpret_cast<const std::byte*>(&e), VIEW, "an entry does not denote the element");
            ++it;
        }
        MC_CHECK(it == v.end(), VIEW, "does not end with the container");
    };
    auto opf = [](C& c, int o)
    {
        const int n = (int)c.size();
        if (o <= (int)CAP) { if (n == (int)CAP || o > n) return false; c.insert(std::next(c.begin(), o), E(1)); return true; }
        const int k = o - (int)CAP - 1;
        if (k >= n) return false;
        c.erase(std::next(c.begin(), k));
        return true;
    };
    explore<C>(cat_str("FixedList<size ", (long)sizeof(E), " align ", (long)alignof(E), ", ", (long)CAP, ">"), 2 * (int)CAP + 1, opf, check,
               [](int o) { return o < 0 ? std::string() : o <= (int)CAP ? cat_str("insert at ", o) : cat_str("erase at ", o - (int)CAP - 1); }, CAP <= 3 ? 1000 : 8, 3000);
}
template <std::size_t SZ, std::size_t AL>
void list_all()
{
    using E = El<SZ, AL>;
    list_one<E, 1, std::size_t>();
    list_one<E, 3, std::size_t>();
    list_one<E, 5, std::size_t>();
    list_one<E, 1, std::uint32_t>();
    list_one<E, 2, std::uint32_t>();
    list_one<E, 3, std::uint32_t>();
    list_one<E, 2, std::uint16_t>();
    list_one<E, 3, std::uint8_t>();
    list_one<E, 4, std::uint8_t>();
    flist_one<E, 3>();
    flist_one<E, 4>();
}
#define ALL(F) F<1, 1>(); F<3, 1>(); F<2, 2>(); F<4, 4>(); F<12, 4>(); F<8, 8>(); F<24, 8>(); F<16, 16>(); F<64, 32>(); F<9, 1>();
void all() { ALL(list_all) list_one<El<3, 1>, 254, std::uint8_t>(); list_one<El<16, 16>, 40, std::uint16_t>(); list_one<El<4, 4>, 70, std::uint32_t>(); }
#elif PART == 2
template <class K, class V, std::size_t CAP>
void umap_one()
{
    using C = fc::FixedUnorderedMap<K, V, CAP, H, std::equal_to<K>, CAP>;
    auto check = [](const C& c)
    {
        const fc::FixedUnorderedMapRawView v(static_cast<const void*>(&c), sizeof(K), alignof(K), sizeof(V), alignof(V), CAP);
        MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
        auto it = v.begin();
        for (auto&& e : c)
        {
            MC_CHECK(it != v.end(), VIEW, "ends early");
            auto ent = *it;
            MC_CHECK(ent.key() == reinterpret_cast<const std::byte*>(&e.first), VIEW, "key() does not denote the key");
            MC_CHECK(ent.value() == reinterpret_cast<const std::byte*>(&e.second), VIEW, "value() does not denote the value");
            it++;
        }
        MC_CHECK(it == v.end(), VIEW, "does not end with the container");
        MC_CHECK((v.begin() == v.end()) == c.empty(), VIEW, "begin()==end()");
    };
    auto opf = [](C& c, int o)
    {
        const int k = o / 2;
        if (o % 2 == 0) { if (c.contains(K(k)) || c.size() == CAP) return false; c.try_emplace(K(k), V(9)); return true; }
        if (!c.contains(K(k))) return false;
        c.erase(K(k));
        return true;
    };
    if constexpr (CAP > 16) linear<C>("unordered map of many>", keyed_history((int)CAP), opf, check);
    else explore<C>(cat_str("unordered map<key ", (long)sizeof(K), "/", (long)alignof(K), " value ", (long)sizeof(V), "/", (long)alignof(V), ", ", (long)CAP, ">"), 2 * ((int)CAP + 1), opf, check,
               [](int o) { return o < 0 ? std::string() : cat_str(o % 2 ? "erase " : "insert ", o / 2); }, 7, 1500);
}
template <class K, std::size_t CAP>
void uset_one()
{
    using C = fc::FixedUnorderedSet<K, CAP, H, std::equal_to<K>, CAP>;
    auto check = [](const C& c)
    {
        const fc::FixedUnorderedSetRawView v(static_cast<const void*>(&c), sizeof(K), alignof(K), CAP);
        MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
        auto it = v.begin();
        for (auto& e : c)
        {
            MC_CHECK(it != v.end(), VIEW, "ends early");
            MC_CHECK(*it == reinterpret_cast<const std::byte*>(&e), VIEW, "an entry does not denote the key");
            it++;
        }
        MC_CHECK(it == v.end(), VIEW, "does not end with the container");
    };
    auto opf = [](C& c, int o)
    {
        const int k = o / 2;
        if (o % 2 == 0) { if (c.contains(K(k)) || c.size() == CAP) return false; c.insert(K(k)); return true; }
        if (!c.contains(K(k))) return false;
        c.erase(K(k));
        return true;
    };
    if constexpr (CAP > 16) linear<C>("unordered set of many>", keyed_history((int)CAP), opf, check);
    else explore<C>(cat_str("unordered set<key ", (long)sizeof(K), "/", (long)alignof(K), ", ", (long)CAP, ">"), 2 * ((int)CAP + 1), opf, check,
               [](int o) { return o < 0 ? std::string() : cat_str(o % 2 ? "erase " : "insert ", o / 2); }, 7, 1500);
}
template <class K>
void u_key()
{
    uset_one<K, 1>();
    uset_one<K, 2>();
    uset_one<K, 3>();
    umap_one<K, El<1, 1>, 3>();
    umap_one<K, El<2, 2>, 2>();
    umap_one<K, El<3, 1>, 1>();
    umap_one<K, El<4, 4>, 3>();
    umap_one<K, El<12, 4>, 2>();
    umap_one<K, El<8, 8>, 3>();
    umap_one<K, El<24, 8>, 2>();
    umap_one<K, El<16, 16>, 3>();
    umap_one<K, El<64, 32>, 2>();
}
void all()
{
    u_key<El<1, 1>>(); u_key<El<3, 1>>(); u_key<El<2, 2>>(); u_key<El<4, 4>>(); u_key<El<12, 4>>(); u_key<El<8, 8>>(); u_key<El<24, 8>>(); u_key<El<16, 16>>();
    umap_one<El<4, 4>, El<8, 8>, 101>(); uset_one<El<12, 4>, 101>();
}
#else
template <class K, class V, std::size_t CAP, rb::RedBlackTreeNodeColorCompactness CO, template <class, std::size_t> class ST, rb::RedBlackTreeStorageType STT>
void map_one()
{
    using C = fc::FixedMap<K, V, CAP, std::less<K>, CO, ST>;
    auto check = [](const C& c)
    {
        const fc::FixedMapRawView v(static_cast<const void*>(&c), sizeof(K), alignof(K), sizeof(V), alignof(V), CAP, CO, STT);
        MC_CHECK(v.size() == c.size(), VIEW, "size() is ", (long)v.size(), " expected ", (long)c.size());
        auto it = v.begin();
        for (auto&& e : c)
        {
            MC_CHECK(it != v.end(), VIEW, "ends early");
            MC_CHECK(it->key() == reinterpret_cast<const std::byte*>(&e.first), VIEW, "key() does not denote the key");
            MC_CHECK((*it).value() == reinterpret_cast<const std::byte*>(&e.second), VIEW, "value() does not denote the value");
            auto old = it++;
            MC_CHECK(old->key() == reinterpret_cast<const std::byte*>(&e.first) && old != it, VIEW, "post-increment");
        }
        MC_CHECK(it == v.end(), VIEW, "does not end with the container");
        MC_CHECK((v.begin() == v.end()) == c.empty(), VIEW, "begin()==end()");
    };
    auto opf = [](C& c, int o)
    {
        const int k = o / 2;
        if (o % 2 == 0) { if (c.contains(K(k)) || c.size() == CAP) return false; c.try_emplace(K(k), V(9)); return true; }
        if (!c.contains(K(k))) return false;
        c.erase(K(k));
        return true;
    };
    if constexpr (CAP > 16) linear<C>("map of many>", keyed_history((int)CAP), opf, check);
    else explore<C>(cat_str("map<key ", (long)sizeof(K), "/", (long)alignof(K), " value ", (long)sizeof(V), "/", (long)alignof(V), ", ", (long)CAP, ", color ", (long)CO, ", storage ", (long)STT, ">"), 2 * ((int)CAP + 1), opf, check,
               [](int o) { return o < 0 ? std::string() : cat_str(o % 2 ? "erase " : "insert ", o / 2); }, 8, CAP > 4 ? 3000 : 600);
}
template <class K, std::size_t CAP, rb::RedBlackTreeNodeColorCompactness CO, template <class, std::size_t> class ST, rb::RedBlackTreeStorageType STT>
void set_one()
{
    using C = fc::FixedSet<K, CAP, std::less<K>, CO, ST>;
    auto check = [](const C& c)
    {
        using IT = fc::FixedRedBlackTreeRawView::Iterator;
        IT it(reinterpret_cast<const std::byte*>(&c), sizeof(K), CAP, CO, STT);
        const IT end(reinterpret_cast<const std::byte*>(&c), sizeof(K), CAP, CO, STT, true);
        MC_CHECK(it.size() == c.size() && end.size() == c.size(), VIEW, "size()");
        for (auto& e : c)
        {
            MC_CHECK(!(it == end), VIEW, "ends early");
            MC_CHECK(*it == reinterpret_cast<const std::byte*>(&e), VIEW, "an entry does not denote the key");
            ++it;
        }
        MC_CHECK(it == end, VIEW, "does not end with the container");
    };
    auto opf = [](C& c, int o)
    {
        const int k = o / 2;
        if (o % 2 == 0) { if (c.contains(K(k)) || c.size() == CAP) return false; c.insert(K(k)); return true; }
        if (!c.contains(K(k))) return false;
        c.erase(K(k));
        return true;
    };
    if constexpr (CAP > 16) linear<C>("set of many>", keyed_history((int)CAP), opf, check);
    else explore<C>(cat_str("set<key ", (long)sizeof(K), "/", (long)alignof(K), ", ", (long)CAP, ", color ", (long)CO, ", storage ", (long)STT, ">"), 2 * ((int)CAP + 1), opf, check,
               [](int o) { return o < 0 ? std::string() : cat_str(o % 2 ? "erase " : "insert ", o / 2); }, 8, 1500);
}
constexpr auto DED = rb::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
constexpr auto EMB = rb::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto POOL = rb::RedBlackTreeStorageType::FIXED_INDEX_POOL;
constexpr auto CONT = rb::RedBlackTreeStorageType::FIXED_INDEX_CONTIGUOUS;
template <class K, class V, std::size_t CAP>
void map_kv()
{
    map_one<K, V, CAP, EMB, fc::FixedIndexBasedPoolStorage, POOL>();
    map_one<K, V, CAP, DED, fc::FixedIndexBasedPoolStorage, POOL>();
    map_one<K, V, CAP, EMB, fc::FixedIndexBasedContiguousStorage, CONT>();
    map_one<K, V, CAP, DED, fc::FixedIndexBasedContiguousStorage, CONT>();
}
template <class K>
void m_key()
{
    map_kv<K, El<1, 1>, 3>();
    map_kv<K, El<2, 2>, 2>();
    map_kv<K, El<3, 1>, 1>();
    map_kv<K, El<4, 4>, 3>();
    map_kv<K, El<12, 4>, 2>();
    map_kv<K, El<8, 8>, 3>();
    map_kv<K, El<24, 8>, 2>();
    set_one<K, 1, EMB, fc::FixedIndexBasedPoolStorage, POOL>();
    set_one<K, 4, EMB, fc::FixedIndexBasedPoolStorage, POOL>();
    set_one<K, 4, DED, fc::FixedIndexBasedPoolStorage, POOL>();
    set_one<K, 4, EMB, fc::FixedIndexBasedContiguousStorage, CONT>();
    set_one<K, 4, DED, fc::FixedIndexBasedContiguousStorage, CONT>();
}
void all()
{
#if SUB == 0
    m_key<El<1, 1>>(); m_key<El<3, 1>>(); m_key<El<2, 2>>(); 
#elif SUB == 1
    m_key<El<4, 4>>(); m_key<El<12, 4>>();
#elif SUB == 2
    m_key<El<8, 8>>(); m_key<El<24, 8>>();
#else
    map_kv<El<4, 4>, El<8, 8>, 7>(); map_kv<El<8, 8>, El<1, 1>, 6>(); map_kv<El<2, 2>, El<12, 4>, 101>();
#endif
}
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    all();
    g_notes["configurations"] = g_configs;
    finish(0);
}
