// Content that comes from elsewhere: factories (make_fixed_*), and construction, insertion and assignment from ranges of every
// iterator category, of other value types, of proxies, of moved elements and of the library's own containers. All sequences over
// three values up to a length, against the std container fed the same way.
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace mc;
namespace fc = fixed_containers;
#ifndef MAXLEN
#define MAXLEN 4
#endif
using W = std::vector<int>;
template <class F> static void item(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const Event ev = guarded([&] { f(); });
    if (ev.kind != EV_NONE) fail(SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, SEM | LIFE | CRASH, "memory error / undefined behaviour");
}
template <class F> static void each_word(int maxlen, F&& f, int alpha = 3)
{
    for (int len = 0; len <= maxlen; ++len)
    {
        long total = 1;
        for (int i = 0; i < len; ++i) total *= alpha;
        for (long code = 0; code < total; ++code)
        {
            W w;
            long x = code;
            for (int i = 0; i < len; ++i, x /= alpha) w.push_back((int)(x % alpha));
            ++g_states;
            f(w);
        }
    }
}
static std::string show(const W& w) { std::string s = "{"; for (int i : w) s += cat_str(s.size() > 1 ? "," : "", i); return s + "}"; }
// single pass: copies share the position; yields prvalues
struct Single
{
    using iterator_category = std::input_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = const int*;
    using reference = int;
    const int** at;
    const int* end;
    int operator*() const { return **at; }
    Single& operator++() { ++*at; return *this; }
    void operator++(int) { ++*at; }
    bool done() const { return at == nullptr || *at == end; }
    friend bool operator==(const Single& a, const Single& b) { return a.done() == b.done(); }
};
// multi-pass, values made on the fly
template <class Cat, class T>
struct Making
{
    using iterator_category = Cat;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    const int* p;
    T operator*() const { return T(*p); }
    Making& operator++() { ++p; return *this; }
    Making operator++(int) { auto t = *this; ++p; return t; }
    Making& operator--() { --p; return *this; }
    Making operator--(int) { auto t = *this; --p; return t; }
    Making& operator+=(difference_type n) { p += n; return *this; }
    Making& operator-=(difference_type n) { p -= n; return *this; }
    friend Making operator+(Making a, difference_type n) { a += n; return a; }
    friend Making operator-(Making a, difference_type n) { a -= n; return a; }
    friend difference_type operator-(const Making& a, const Making& b) { return a.p - b.p; }
    T operator[](difference_type n) const { return T(p[n]); }
    friend bool operator==(const Making& a, const Making& b) { return a.p == b.p; }
    friend auto operator<=>(const Making& a, const Making& b) { return a.p <=> b.p; }
};

// Moving from one of these is visible
struct Sly
{
    int v;
    Sly(int x = 0) : v(x) {}
    Sly(const Sly& o) : v(o.v) {}
    Sly(Sly&& o) noexcept : v(o.v) { if (this != &o) o.v = -1; }
    Sly& operator=(const Sly& o) { v = o.v; return *this; }
    Sly& operator=(Sly&& o) noexcept { const int t = o.v; if (this != &o) o.v = -1; v = t; return *this; }
    explicit operator int() const { return v; }
    friend bool operator==(const Sly& a, const Sly& b) { return a.v == b.v; }
    friend auto operator<=>(const Sly& a, const Sly& b) { return a.v <=> b.v; }
};
// Calls f(name, first, last) with every source that yields the values of w
template <class F> static void sources(const W& w, F&& f)
{
    f("int*", w.data(), w.data() + w.size());
    f("vector", w.begin(), w.end());
    f("reversed", w.rbegin(), w.rend());
    std::list<int> l(w.begin(), w.end());
    f("list", l.begin(), l.end());
    std::forward_list<int> fl(w.begin(), w.end());
    f("forward_list", fl.begin(), fl.end());
    std::deque<int> dq(w.begin(), w.end());
    f("deque", dq.cbegin(), dq.cend());
    std::multiset<int> ms(w.begin(), w.end());
    f("multiset", ms.begin(), ms.end());
    std::vector<short> sh(w.begin(), w.end());
    f("short*", sh.data(), sh.data() + sh.size());
    std::vector<long> lg(w.begin(), w.end());
    f("vector<long>", lg.begin(), lg.end());
    std::vector<char> ch(w.begin(), w.end());
    f("list<char>", ch.rbegin(), ch.rend());
    std::vector<double> db;
    for (int i : w) db.push_back(i + 0.75);
    f("vector<double>", db.begin(), db.end());
    std::vector<bool> vb;
    for (int i : w) vb.push_back(i != 0);
    f("vector<bool>", vb.begin(), vb.end());
    W mv = w;
    f("move_iterator", std::make_move_iterator(mv.begin()), std::make_move_iterator(mv.end()));
    f("forward, made on the fly", Making<std::forward_iterator_tag, int>{w.data()}, Making<std::forward_iterator_tag, int>{w.data() + w.size()});
    f("bidirectional, made on the fly", Making<std::bidirectional_iterator_tag, short>{w.data()}, Making<std::bidirectional_iterator_tag, short>{w.data() + w.size()});
    f("random access, made on the fly", Making<std::random_access_iterator_tag, long>{w.data()}, Making<std::random_access_iterator_tag, long>{w.data() + w.size()});
    fc::FixedVector<int, MAXLEN> fv(w.begin(), w.end());
    f("FixedVector", fv.begin(), fv.end());
    f("FixedVector reversed", fv.crbegin(), fv.crend());
    fc::FixedDeque<int, MAXLEN> fd;
    for (auto it = w.rbegin(); it != w.rend(); ++it) fd.push_front(*it);
    f("FixedDeque", fd.begin(), fd.end());
    fc::FixedCircularDeque<int, MAXLEN> fcd;
    for (int i = 0; i < 3; ++i) fcd.push_back(9);
    for (int i = 0; i < 3; ++i) fcd.pop_front();
    for (int i : w) fcd.push_back(i);
    f("FixedCircularDeque", fcd.cbegin(), fcd.cend());
    fc::FixedList<int, MAXLEN> fli(w.begin(), w.end());
    f("FixedList", fli.begin(), fli.end());
    fc::FixedSet<int, MAXLEN> fs(w.begin(), w.end());
    f("FixedSet", fs.begin(), fs.end());
}

#if KIND <= 3
// ---------------------------------------------------------------- sequences
template <class T> static int val(const T& x) { if constexpr (requires { x.get(); }) return x.get(); else return (int)x; }
template <class C> static std::string same(const C& c, const W& m)
{
    if (c.size() != m.size()) return cat_str("size ", (long)c.size(), ", expected ", (long)m.size());
    std::size_t i = 0;
    for (auto& x : c) { if (val(x) != m[i]) return cat_str("element ", (long)i, " is ", val(x), ", expected ", m[i]); ++i; }
    return "";
}
template <class C> static std::string same_i(const C& c, const W& m)
{
    if (c.size() != m.size()) return cat_str("size ", (long)c.size(), ", expected ", (long)m.size());
    std::size_t i = 0;
    for (auto& x : c) { if ((int)x != m[i]) return cat_str("element ", (long)i, " is ", (int)x, ", expected ", m[i]); ++i; }
    return "";
}
#if KIND == 0
template <class T, std::size_t N> using C_ = fc::FixedVector<T, N>;
#define MAKE fc::make_fixed_vector
#define NAME "FixedVector"
#elif KIND == 1
template <class T, std::size_t N> using C_ = fc::FixedDeque<T, N>;
#define MAKE fc::make_fixed_deque
#define NAME "FixedDeque"
#elif KIND == 2
template <class T, std::size_t N> using C_ = fc::FixedCircularDeque<T, N>;
#define MAKE fc::make_fixed_circular_deque
#define NAME "FixedCircularDeque"
#else
template <class T, std::size_t N> using C_ = fc::FixedList<T, N>;
#define MAKE fc::make_fixed_list
#define NAME "FixedList"
#endif
constexpr std::size_t CAP = MAXLEN + 2;
template <class T, class S> static void feed(const std::string& name, S mk, const W& m)
{
    // mk() yields a fresh (first, last) pair
    item(cat_str(NAME " constructed from ", name), [&]
    {
        auto [a, b] = mk();
        const C_<T, CAP> c(a, b);
        const auto s = same(c, m);
        MC_CHECK(s.empty(), SEM, s);
    });
    for (int pre = 0; pre <= 2; ++pre)
        for (int pos = 0; pos <= pre; ++pos)
            for (int turned = 0; turned < 2; ++turned)
                item(cat_str(NAME " of ", pre, ", insertion at ", pos, " from ", name), [&]
                {
                    C_<T, CAP> c;
                    // the same content elsewhere in the buffer
                    if (turned) { for (int i = 0; i < (int)CAP - 1; ++i) c.push_back(T(9)); while (!c.empty()) c.erase(c.cbegin()); }
                    W x;
                    for (int i = 0; i < pre; ++i) { c.push_back(T(5 + i)); x.push_back(5 + i); }
                    auto [a, b] = mk();
                    auto it = c.insert(std::next(c.cbegin(), pos), a, b);
                    x.insert(x.begin() + pos, m.begin(), m.end());
                    MC_CHECK(std::distance(c.begin(), it) == pos, SEM, "returned position");
                    const auto s = same(c, x);
                    MC_CHECK(s.empty(), SEM, s);
                });
    item(cat_str(NAME " assigned from ", name), [&]
    {
        C_<T, CAP> c;
        c.push_back(T(5)); c.push_back(T(6)); c.push_back(T(7));
        auto [a, b] = mk();
        c.assign(a, b);
        const auto s = same(c, m);
        MC_CHECK(s.empty(), SEM, s);
    });
}
template <class T> static void feed_all(const char* tn)
{
    each_word(MAXLEN, [&](const W& w)
    {
        sources(w, [&](const char* n, auto first, auto last)
        {
            W m;
            for (auto it = first; it != last; ++it) m.push_back((int)*it);
            feed<T>(cat_str(n, " ", show(w), " to ", tn), [&] { return std::pair(first, last); }, m);
        });
        const int* at = nullptr;
        feed<T>(cat_str("single pass ", show(w), " to ", tn), [&] { at = w.data(); return std::pair(Single{&at, w.data() + w.size()}, Single{nullptr, nullptr}); }, w);
        std::istringstream in;
        feed<T>(cat_str("istream ", show(w), " to ", tn), [&] { std::string s; for (int i : w) s += cat_str(i, " "); in.clear(); in.str(s); return std::pair(std::istream_iterator<int>(in), std::istream_iterator<int>()); }, w);
    });
}
template <std::size_t L> static void factory()
{
    each_word(L, [&](const W& w)
    {
        if (w.size() != L) return;
        item(cat_str("make_" NAME, show(w)), [&]
        {
            auto go = [&]<class T>(T)
            {
                auto fill = [&]<std::size_t... I>(std::index_sequence<I...>)
                {
                    const T a[] = {T(w[I])...};
                    auto c = MAKE(a);
                    static_assert(std::is_same_v<typename decltype(c)::value_type, T>);
                    MC_CHECK(c.max_size() == L && decltype(c)::static_max_size() == L && is_full(c), SEM, "capacity");
                    const auto s = same(c, w);
                    MC_CHECK(s.empty(), SEM, s);
                };
                fill(std::make_index_sequence<L>{});
            };
            go(int{}); go(char{}); go(Tracked(1)); go(Triv(1));
        });
    });
}
static void overflow_circular()
{
#if KIND == 2
    // more than fits: the last ones survive, whatever the source
    each_word(MAXLEN, [&](const W& w)
    {
        sources(w, [&](const char* n, auto first, auto last)
        {
            W m;
            for (auto it = first; it != last; ++it) m.push_back((int)*it);
            W keep = m;
            if (keep.size() > 2) keep.erase(keep.begin(), keep.end() - 2);
            item(cat_str("FixedCircularDeque of capacity 2 from ", n, " ", show(w)), [&]
            {
                const fc::FixedCircularDeque<int, 2> c(first, last);
                auto s = same(c, keep);
                MC_CHECK(s.empty(), SEM, "constructed: ", s);
                fc::FixedCircularDeque<int, 2> d;
                d.push_back(5);
                d.assign(first, last);
                s = same(d, keep);
                MC_CHECK(s.empty(), SEM, "assigned: ", s);
            });
        });
    });
#endif
}
static void move_only()
{
    each_word(MAXLEN, [&](const W& w)
    {
        auto run = [&](const char* n, int how)
        {
            item(cat_str(NAME " of move-only elements from moved ", show(w), ": ", n), [&]
            {
                const long live = (long)g_stack_live.size();
                {
                    std::vector<MoveOnly> src;
                    for (int i : w) src.emplace_back(i);
                    C_<MoveOnly, CAP> c;
                    W m;
                    auto a = std::make_move_iterator(src.begin()), b = std::make_move_iterator(src.end());
                    if (how == 0) { C_<MoveOnly, CAP> d(a, b); c = std::move(d); m = w; }
                    else if (how == 1) { c.push_back(MoveOnly(5)); c.push_back(MoveOnly(6)); c.insert(std::next(c.cbegin()), a, b); m = {5, 6}; m.insert(m.begin() + 1, w.begin(), w.end()); }
                    else { c.push_back(MoveOnly(5)); c.assign(a, b); m = w; }
                    const auto s = same(c, m);
                    MC_CHECK(s.empty(), SEM, s);
                }
                MC_CHECK((long)g_stack_live.size() == live, SEM | LIFE, "elements left behind");
            });
        };
        run("construction", 0);
        run("insertion", 1);
        run("assignment", 2);
    });
}
static void strings()
{
    // elements that own memory, from other string types
    const char* words[] = {"", "x", "a string far beyond the small buffer of std::string"};
    each_word(3, [&](const W& w)
    {
        std::vector<const char*> cs;
        std::vector<std::string_view> sv;
        std::list<std::string> st;
        std::vector<std::string> want;
        for (int i : w) { cs.push_back(words[i]); sv.push_back(words[i]); st.push_back(words[i]); want.push_back(words[i]); }
        auto check = [&](const char* n, auto first, auto last)
        {
            item(cat_str(NAME " of std::string from ", n, " ", show(w)), [&]
            {
                C_<std::string, 5> c;
                if constexpr (std::is_convertible_v<decltype(*first), std::string>)
                {
                    const C_<std::string, 5> d(first, last);
                    MC_CHECK(std::equal(d.begin(), d.end(), want.begin(), want.end()), SEM, "constructed");
                    c.push_back("first"); c.push_back("last");
                    c.insert(std::next(c.cbegin()), first, last);
                    std::vector<std::string> m{"first", "last"};
                    m.insert(m.begin() + 1, want.begin(), want.end());
                    MC_CHECK(std::equal(c.begin(), c.end(), m.begin(), m.end()), SEM, "inserted");
                    c.assign(first, last);
                    MC_CHECK(std::equal(c.begin(), c.end(), want.begin(), want.end()), SEM, "assigned");
                }
            });
        };
        check("const char*", cs.begin(), cs.end());
        check("std::list of std::string", st.begin(), st.end());
        std::list<std::string> mv = st;
        item(cat_str(NAME " of std::string from moved ", show(w)), [&]
        {
            const C_<std::string, 5> d(std::make_move_iterator(mv.begin()), std::make_move_iterator(mv.end()));
            MC_CHECK(std::equal(d.begin(), d.end(), want.begin(), want.end()), SEM, "constructed");
        });
    });
}

// Arguments that are plain lvalues, and the ranges they are taken from, keep their value
template <class Sly> static void lvalues()
{
    each_word(3, [&](const W& w)
    {
        auto range = [&](const char* n, auto src)
        {
            for (int how = 0; how < 4; ++how)
                item(cat_str(NAME ", source ", n, " ", show(w), how == 0 ? " of construction" : how == 1 ? " of insertion" : how == 2 ? " of assignment" : " of filling"), [&]
                {
                    auto s = src;
                    C_<Sly, CAP> c;
                    W m = w;
                    if (how == 0) { C_<Sly, CAP> d(s.begin(), s.end()); const auto e = same_i(d, m); MC_CHECK(e.empty(), SEM, e); }
                    else if (how == 1) { c.emplace_back(5); c.emplace_back(6); c.insert(std::next(c.begin()), s.begin(), s.end()); m = {5, 6}; m.insert(m.begin() + 1, w.begin(), w.end()); const auto e = same_i(c, m); MC_CHECK(e.empty(), SEM, e); }
                    else if (how == 2) { c.emplace_back(5); c.assign(s.begin(), s.end()); const auto e = same_i(c, m); MC_CHECK(e.empty(), SEM, e); }
                    else { for (auto& x : s) c.push_back(x); const auto e = same_i(c, m); MC_CHECK(e.empty(), SEM, e); }
                    MC_CHECK(same_i(s, w).empty(), SEM, "the source changed");
                });
        };
        range("vector", std::vector<Sly>(w.begin(), w.end()));
        range("list", std::list<Sly>(w.begin(), w.end()));
        range("own", C_<Sly, MAXLEN>(w.begin(), w.end()));
        for (int x = 0; x < 3; ++x)
            for (int how = 0; how < 10; ++how)
                for (int at = 0; at <= (int)w.size(); ++at)
                    item(cat_str(NAME " ", show(w), ", lvalue argument to operation ", how), [&]
                    {
                        C_<Sly, CAP> c(w.begin(), w.end());
                        W m = w;
                        Sly a(x);
                        auto pos = std::next(c.begin(), at);
                        switch (how)
                        {
                        case 0: c.push_back(a); m.push_back(x); break;
                        case 1: c.emplace_back(a); m.push_back(x); break;
                        case 2: c.insert(pos, a); m.insert(m.begin() + at, x); break;
                        case 3: c.emplace(pos, a); m.insert(m.begin() + at, x); break;
                        case 4: c.assign(2, a); m.assign(2, x); break;
                        case 5: c.resize(CAP, a); m.resize(CAP, x); break;
                        case 6: if constexpr (requires { c.push_front(a); }) { c.push_front(a); m.insert(m.begin(), x); } break;
                        case 7: if constexpr (requires { c.emplace_front(a); }) { c.emplace_front(a); m.insert(m.begin(), x); } break;
                        case 8: { auto l = {a, a}; c.insert(pos, l); m.insert(m.begin() + at, 2, x); for (auto& y : l) MC_CHECK(y.v == x, SEM, "the list changed"); break; }
                        default: { auto l = {a, a}; c = l; m.assign(2, x); for (auto& y : l) MC_CHECK(y.v == x, SEM, "the list changed"); break; }
                        }
                        MC_CHECK(a.v == x, SEM, "the argument changed");
                        const auto e = same_i(c, m);
                        MC_CHECK(e.empty(), SEM, e);
                    });
    });
}
static void run_all()
{
    lvalues<Sly>();
    feed_all<int>("int");
    feed_all<Tracked>("Tracked");
    factory<1>(); factory<2>(); factory<3>(); factory<4>();
    item("make_" NAME " of nothing", [&]
    {
        auto c = MAKE(std::array<int, 0>{});
        MC_CHECK(c.empty() && c.max_size() == 0 && c.begin() == c.end(), SEM, "content");
        auto d = MAKE<Tracked>(std::array<Tracked, 0>{});
        MC_CHECK(d.empty() && decltype(d)::static_max_size() == 0, SEM, "content");
    });
    overflow_circular();
    move_only();
    strings();
}
#elif KIND >= 5 && KIND <= 8
// ---------------------------------------------------------------- associative
// orders (hashes) one way or the other
struct Ord
{
    bool down = false;
    bool operator()(int a, int b) const { return down ? b < a : a < b; }
};
struct Hsh { std::uint64_t salt = 1; std::uint64_t operator()(int x) const { return ((std::uint64_t)x * 0x9E3779B97F4A7C15ull) ^ (salt << 40); } };
struct Eql { int mod = 1000; bool operator()(int a, int b) const { return a % mod == b % mod; } };
#if KIND == 5
#define NAME "FixedMap"
#elif KIND == 6
#define NAME "FixedSet"
#elif KIND == 7
#define NAME "FixedUnorderedMap"
#else
#define NAME "FixedUnorderedSet"
#endif
constexpr bool MAP = KIND == 5 || KIND == 7, ORDERED = KIND <= 6;
using Model = std::map<int, int>;
template <class C> static std::string same(const C& c, const Model& m, bool down = false)
{
    if (c.size() != m.size()) return cat_str("size ", (long)c.size(), ", expected ", (long)m.size());
    Model got;
    W order;
    if constexpr (MAP) { for (auto&& [k, v] : c) { got[(int)k] = (int)v; order.push_back((int)k); } }
    else for (auto& k : c) { got[(int)k] = 0; order.push_back((int)k); }
    if (got != m) return "content";
    if (ORDERED && !std::is_sorted(order.begin(), order.end(), Ord{down})) return "order";
    for (int k = 0; k < 10; ++k) if (c.contains(k) != (m.count(k) != 0)) return cat_str("contains(", k, ")");
    return "";
}
#if KIND == 5
template <class K, class V, std::size_t N> using C_ = fc::FixedMap<K, V, N>;
#elif KIND == 6
template <class K, class V, std::size_t N> using C_ = fc::FixedSet<K, N>;
#elif KIND == 7
template <class K, class V, std::size_t N> using C_ = fc::FixedUnorderedMap<K, V, N>;
#else
template <class K, class V, std::size_t N> using C_ = fc::FixedUnorderedSet<K, N>;
#endif
template <class K, class V, class P> static void feed(const std::string& name, P mk, const std::vector<std::pair<int, int>>& seq)
{
    using C = C_<K, V, MAXLEN + 2>;
    auto add = [&](Model& m) { for (auto& [k, v] : seq) m.insert({k, MAP ? v : 0}); };
    item(cat_str(NAME " constructed from ", name), [&]
    {
        auto [a, b] = mk();
        const C c(a, b);
        Model m;
        add(m);
        const auto s = same(c, m);
        MC_CHECK(s.empty(), SEM, s);
    });
    for (int pre = 0; pre < 4; ++pre)
        item(cat_str(NAME ", insertion from ", name), [&]
        {
            C c;
            Model m;
            for (int k : {1, 7}) if (pre >> (k == 7) & 1) { if constexpr (MAP) c.try_emplace(K(k), V(8)); else c.insert(K(k)); m[k] = MAP ? 8 : 0; }
            auto [a, b] = mk();
            c.insert(a, b);
            add(m);
            const auto s = same(c, m);
            MC_CHECK(s.empty(), SEM, s);
        });
    // exactly as many different keys as fit
    item(cat_str("full " NAME ", insertion from ", name), [&]
    {
        Model m;
        add(m);
        if (m.size() != 2) return;
        C_<K, V, 2> c;
        auto [a, b] = mk();
        c.insert(a, b);
        const auto s = same(c, m);
        MC_CHECK(s.empty(), SEM, s);
        MC_CHECK(is_full(c), SEM, "is_full");
    });
}
template <class K, class V> static void feed_all(const char* tn)
{
    each_word(MAXLEN, [&](const W& w)
    {
        std::vector<std::pair<int, int>> seq;
        for (std::size_t i = 0; i < w.size(); ++i) seq.emplace_back(w[i], (int)i + 1);
        if constexpr (MAP)
        {
            auto go = [&](const char* n, auto first, auto last)
            {
                std::vector<std::pair<int, int>> s;
                for (auto it = first; it != last; ++it) { auto&& e = *it; s.emplace_back((int)e.first, (int)e.second); }
                feed<K, V>(cat_str(n, " ", show(w), " to ", tn), [&] { return std::pair(first, last); }, s);
            };
            std::vector<std::pair<K, V>> same_v;
            std::vector<std::pair<const K, V>> const_v;
            for (auto& [k, v] : seq) { same_v.emplace_back((K)k, (V)v); const_v.emplace_back((K)k, (V)v); }
            go("pairs", same_v.data(), same_v.data() + same_v.size());
            go("pairs reversed", same_v.rbegin(), same_v.rend());
            go("value_type", const_v.begin(), const_v.end());
            std::list<std::pair<short, char>> other;
            for (auto& [k, v] : seq) other.emplace_back((short)k, (char)v);
            go("pairs of other types", other.begin(), other.end());
            std::multimap<K, V> mm(same_v.begin(), same_v.end());
            go("multimap", mm.begin(), mm.end());
            auto mv = same_v;
            go("moved pairs", std::make_move_iterator(mv.begin()), std::make_move_iterator(mv.end()));
        }
        else
        {
            sources(w, [&](const char* n, auto first, auto last)
            {
                std::vector<std::pair<int, int>> s;
                for (auto it = first; it != last; ++it) s.emplace_back((int)*it, 0);
                feed<K, V>(cat_str(n, " ", show(w), " to ", tn), [&] { return std::pair(first, last); }, s);
            });
            const int* at = nullptr;
            feed<K, V>(cat_str("single pass ", show(w), " to ", tn), [&] { at = w.data(); return std::pair(Single{&at, w.data() + w.size()}, Single{nullptr, nullptr}); }, seq);
        }
    });
}
template <std::size_t L> static void factory()
{
    each_word(L, [&](const W& w)
    {
        if (w.size() != L) return;
        Model m;
        for (std::size_t i = 0; i < L; ++i) m.insert({w[i], MAP ? (int)i + 1 : 0});
        item(cat_str("make_" NAME, show(w)), [&]
        {
            auto fill = [&]<std::size_t... I>(std::index_sequence<I...>)
            {
                auto look = [&](auto c, bool down, const char* what)
                {
                    MC_CHECK(c.max_size() == L && decltype(c)::static_max_size() == L && is_full(c) == (m.size() == L), SEM, what, ": capacity");
                    auto s = same(c, m, down);
                    MC_CHECK(s.empty(), SEM, what, ": ", s);
                    // still usable
                    auto d = c;
                    d.erase(w[0]);
                    if constexpr (MAP) d.try_emplace(8, 9); else d.insert(8);
                    auto mm = m;
                    mm.erase(w[0]);
                    mm[8] = MAP ? 9 : 0;
                    s = same(d, mm, down);
                    MC_CHECK(s.empty(), SEM, what, ", used: ", s);
                };
#if KIND == 5
                const std::pair<int, int> a[] = {{w[I], (int)I + 1}...};
                look(fc::make_fixed_map(a), false, "plain");
                look(fc::make_fixed_map<int, int, Ord>(a, Ord{true}), true, "with a comparator");
                look(fc::make_fixed_map<int, int, Ord>(a, Ord{false}), false, "with a comparator");
#elif KIND == 6
                const int a[] = {w[I]...};
                look(fc::make_fixed_set(a), false, "plain");
                look(fc::make_fixed_set<int, Ord>(a, Ord{true}), true, "with a comparator");
                look(fc::make_fixed_set<int, Ord>(a, Ord{false}), false, "with a comparator");
#elif KIND == 7
                const std::pair<int, int> a[] = {{w[I], (int)I + 1}...};
                look(fc::make_fixed_unordered_map(a), false, "plain");
                look(fc::make_fixed_unordered_map<int, int, Hsh, Eql>(a, Hsh{7}, Eql{100}), false, "with a hash");
#else
                const int a[] = {w[I]...};
                look(fc::make_fixed_unordered_set(a), false, "plain");
                look(fc::make_fixed_unordered_set<int, Hsh, Eql>(a, Hsh{7}, Eql{100}), false, "with a hash");
#endif
            };
            fill(std::make_index_sequence<L>{});
        });
    });
}
static void factory_functors()
{
    // the given functors are the ones in use
#if KIND == 5 || KIND == 6
    item("make_" NAME " keeps its comparator", [&]
    {
#if KIND == 5
        const std::pair<int, int> a[] = {{1, 1}, {2, 2}, {3, 3}};
        auto c = fc::make_fixed_map<int, int, Ord>(a, Ord{true});
        MC_CHECK(c.begin()->first == 3, SEM, "order");
        auto z = fc::make_fixed_map<int, int, Ord>(std::array<std::pair<int, int>, 0>{}, Ord{true});
#else
        const int a[] = {1, 2, 3};
        auto c = fc::make_fixed_set<int, Ord>(a, Ord{true});
        MC_CHECK(*c.begin() == 3, SEM, "order");
        auto z = fc::make_fixed_set<int, Ord>(std::array<int, 0>{}, Ord{true});
#endif
        MC_CHECK(z.empty() && z.max_size() == 0 && z.begin() == z.end() && !z.contains(1), SEM, "nothing");
    });
#else
    for (int mod : {2, 5})
        item("make_" NAME " keeps its equality", [&]
        {
            struct One { std::uint64_t operator()(int) const { return 5; } };
#if KIND == 7
            const std::pair<int, int> a[] = {{1, 1}, {2, 2}, {3, 3}};
            auto c = fc::make_fixed_unordered_map<int, int, One, Eql>(a, One{}, Eql{mod});
            auto z = fc::make_fixed_unordered_map<int, int, One, Eql>(std::array<std::pair<int, int>, 0>{}, One{}, Eql{mod});
#else
            const int a[] = {1, 2, 3};
            auto c = fc::make_fixed_unordered_set<int, One, Eql>(a, One{}, Eql{mod});
            auto z = fc::make_fixed_unordered_set<int, One, Eql>(std::array<int, 0>{}, One{}, Eql{mod});
#endif
            MC_CHECK(c.size() == (mod == 2 ? 2u : 3u) && c.contains(1 + mod), SEM, "keys that are equal");
            MC_CHECK(z.empty() && z.max_size() == 0 && z.begin() == z.end() && !z.contains(1), SEM, "nothing");
        });
#endif
}

// Arguments that are plain lvalues, and the ranges they are taken from, keep their value
template <bool MAP, class Sly> static void lvalues()
{
    struct HSly { std::uint64_t operator()(const Sly& x) const { return (std::uint64_t)x.v << 7; } };
#if KIND == 5
    using C = fc::FixedMap<Sly, Sly, MAXLEN + 2>;
#elif KIND == 6
    using C = fc::FixedSet<Sly, MAXLEN + 2>;
#elif KIND == 7
    using C = fc::FixedUnorderedMap<Sly, Sly, MAXLEN + 2, HSly>;
#else
    using C = fc::FixedUnorderedSet<Sly, MAXLEN + 2, HSly>;
#endif
    each_word(3, [&](const W& w)
    {
        Model m0;
        for (std::size_t i = 0; i < w.size(); ++i) m0.insert({w[i], MAP ? (int)i + 1 : 0});
        auto look = [&](const C& c, const Model& m)
        {
            Model got;
            if constexpr (MAP) { for (auto&& [k, v] : c) got[k.v] = v.v; } else for (auto& k : c) got[k.v] = 0;
            MC_CHECK(got == m && c.size() == m.size(), SEM, "content");
        };
        auto build = [&] { C c; for (auto& [k, v] : m0) { if constexpr (MAP) c.try_emplace(Sly(k), Sly(v)); else c.insert(Sly(k)); } return c; };
        for (int how = 0; how < 3; ++how)
            for (int own = 0; own < 2; ++own)
                item(cat_str(NAME ", source ", show(w)), [&]
                {
                    auto go = [&](auto& src)
                    {
                        if (how == 0) { C c(src.begin(), src.end()); look(c, m0); }
                        else { C c; if (how == 2) { if constexpr (MAP) c.try_emplace(1, 9); else c.insert(1); } Model m; if (how == 2) m[1] = MAP ? 9 : 0; for (auto& e : m0) m.insert(e); c.insert(src.begin(), src.end()); look(c, m); }
                    };
                    if (own) { C src = build(); go(src); look(src, m0); }
                    else if constexpr (MAP)
                    {
                        std::vector<std::pair<Sly, Sly>> src;
                        for (std::size_t i = 0; i < w.size(); ++i) src.emplace_back(w[i], (int)i + 1);
                        go(src);
                        for (std::size_t i = 0; i < w.size(); ++i) MC_CHECK(src[i].first.v == w[i] && src[i].second.v == (int)i + 1, SEM, "the source changed");
                    }
                    else
                    {
                        std::vector<Sly> src(w.begin(), w.end());
                        go(src);
                        for (std::size_t i = 0; i < w.size(); ++i) MC_CHECK(src[i].v == w[i], SEM, "the source changed");
                    }
                });
        for (int k = 0; k < 4; ++k)
            for (int how = 0; how < 9; ++how)
                item(cat_str(NAME " after ", show(w), ", lvalue argument ", k, " to operation ", how), [&]
                {
                    C c = build();
                    Model m = m0;
                    Sly a(k), b(8);
                    auto hint = c.begin();
                    bool kept = true;
                    if constexpr (MAP)
                    {
                        std::pair<const Sly, Sly> vt(k, 8);
                        std::pair<Sly, Sly> pr(k, 8);
                        switch (how)
                        {
                        case 0: c.insert(vt); m.insert({k, 8}); break;
                        case 1: c.emplace(a, b); m.insert({k, 8}); break;
                        case 2: c.try_emplace(a, b); m.insert({k, 8}); break;
                        case 3: c.insert_or_assign(a, b); m[k] = 8; break;
                        case 4: c[a] = b; m[k] = 8; break;
                        case 5: c.emplace(pr); m.insert({k, 8}); break;
                        case 6: if constexpr (requires { c.emplace_hint(hint, a, b); }) { c.emplace_hint(hint, a, b); m.insert({k, 8}); } break;
                        case 7: if constexpr (requires { c.try_emplace(hint, a, b); }) { c.try_emplace(hint, a, b); m.insert({k, 8}); } break;
                        default: { (void)c.find(a); (void)c.contains(a); (void)c.count(a); c.erase(a); m.erase(k); }
                        }
                        kept = vt.first.v == k && vt.second.v == 8 && pr.first.v == k && pr.second.v == 8;
                    }
                    else
                        switch (how)
                        {
                        case 0: c.insert(a); m[k] = 0; break;
                        case 1: c.emplace(a); m[k] = 0; break;
                        case 2: if constexpr (requires { c.insert(hint, a); }) { c.insert(hint, a); m[k] = 0; } break;
                        case 3: if constexpr (requires { c.emplace_hint(hint, a); }) { c.emplace_hint(hint, a); m[k] = 0; } break;
                        case 4: { auto l = {a, a}; c.insert(l); m[k] = 0; for (auto& y : l) kept = kept && y.v == k; break; }
                        default: { (void)c.find(a); (void)c.contains(a); (void)c.count(a); c.erase(a); m.erase(k); }
                        }
                    MC_CHECK(kept && a.v == k && b.v == 8, SEM, "the argument changed");
                    look(c, m);
                });
    });
}
static void run_all()
{
    lvalues<(KIND == 5 || KIND == 7), Sly>();
    feed_all<int, int>("int");
    feed_all<long, double>("long");
    factory<1>(); factory<2>(); factory<3>(); factory<4>();
    factory_functors();
}
#elif KIND == 4
// ---------------------------------------------------------------- strings
static void run_all()
{
    const char abc[] = {'a', '\0', 'z'};
    each_word(MAXLEN, [&](const W& w)
    {
        std::string m;
        for (int i : w) m.push_back(abc[i]);
        auto check = [&](const char* n, auto mk, const std::string& want)
        {
            auto look = [&](const auto& s, const std::string& x, const char* what)
            {
                MC_CHECK(s.size() == x.size() && std::string(s.data(), s.size()) == x && s.data()[s.size()] == '\0' && s.c_str()[s.size()] == '\0', SEM | NULTERM, what);
            };
            item(cat_str("FixedString from ", n, " ", show(w)), [&]
            {
                using S = fc::FixedString<MAXLEN + 2>;
                {
                    S s("xyx");
                    auto [a, b] = mk();
                    s.assign(a, b);
                    look(s, want, "assigned");
                }
                {
                    S s("x");
                    auto [a, b] = mk();
                    s.append(a, b);
                    look(s, "x" + want, "appended");
                }
                for (int pos = 0; pos <= 2; ++pos)
                {
                    S s("xy");
                    auto [a, b] = mk();
                    auto it = s.insert(s.cbegin() + pos, a, b);
                    std::string x("xy");
                    x.insert(x.begin() + pos, want.begin(), want.end());
                    look(s, x, "inserted");
                    MC_CHECK(it - s.begin() == pos, SEM, "returned position");
                }
            });
        };
        const std::string rev(m.rbegin(), m.rend());
        check("std::string", [&] { return std::pair(m.begin(), m.end()); }, m);
        check("const char*", [&] { return std::pair(m.data(), m.data() + m.size()); }, m);
        check("reversed", [&] { return std::pair(m.rbegin(), m.rend()); }, rev);
        const std::list<char> l(m.begin(), m.end());
        check("list", [&] { return std::pair(l.begin(), l.end()); }, m);
        const std::forward_list<signed char> fl(m.begin(), m.end());
        check("forward_list", [&] { return std::pair(fl.begin(), fl.end()); }, m);
        const std::vector<int> vi(m.begin(), m.end());
        check("int", [&] { return std::pair(vi.begin(), vi.end()); }, m);
        std::istringstream in;
        check("istreambuf", [&] { in.clear(); in.str(m); return std::pair(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); }, m);
        const fc::FixedString<MAXLEN> fs{std::string_view(m)};
        check("FixedString", [&] { return std::pair(fs.begin(), fs.end()); }, m);
        check("FixedString reversed", [&] { return std::pair(fs.crbegin(), fs.crend()); }, rev);
        fc::FixedDeque<char, MAXLEN> fd(m.begin(), m.end());
        check("FixedDeque", [&] { return std::pair(fd.begin(), fd.end()); }, m);
        fc::FixedList<char, MAXLEN> fli(m.begin(), m.end());
        check("FixedList", [&] { return std::pair(fli.begin(), fli.end()); }, m);
    });
    item("make_fixed_string", [&]
    {
        auto look = [&](auto s, const std::string& x, std::size_t cap) { MC_CHECK(s.size() == x.size() && s.max_size() == cap && std::string(s.data(), s.size()) == x && s.c_str()[s.size()] == '\0', SEM | NULTERM, "make_fixed_string of length ", (long)cap); };
        look(fc::make_fixed_string(""), "", 0);
        look(fc::make_fixed_string("a"), "a", 1);
        look(fc::make_fixed_string("a\0b"), std::string("a\0b", 3), 3);
        look(fc::make_fixed_string("\0"), std::string("\0", 1), 1);
        look(fc::make_fixed_string("hello\0"), std::string("hello\0", 6), 6);
        look(fc::make_fixed_string("a string of some length, longer than a word"), "a string of some length, longer than a word", 43);
    });
}
#elif KIND >= 9
// ---------------------------------------------------------------- adapters
template <class Q, bool LIFO, bool CIRC> static void adapter(const char* name)
{
    each_word(MAXLEN, [&](const W& w)
    {
        auto look = [&](auto mk, W m, const char* n)
        {
            item(cat_str(name, " from ", n, " ", show(w)), [&]
            {
                Q q = mk();
                if (CIRC && m.size() > q.max_size()) m.erase(m.begin(), m.end() - (long)q.max_size());
                MC_CHECK(q.size() == m.size() && q.empty() == m.empty() && is_full(q) == (m.size() == q.max_size()), SEM, "size");
                while (!m.empty())
                {
                    if constexpr (LIFO) { MC_CHECK(q.top() == m.back(), SEM, "top"); m.pop_back(); }
                    else { MC_CHECK(q.front() == m.front() && q.back() == m.back(), SEM, "front, back"); m.erase(m.begin()); }
                    q.pop();
                    MC_CHECK(q.size() == m.size(), SEM, "size");
                }
            });
        };
        sources(w, [&](const char* n, auto first, auto last)
        {
            W m;
            for (auto it = first; it != last; ++it) m.push_back((int)*it);
            look([&] { return Q(first, last); }, m, n);
        });
        const int* at = w.data();
        look([&] { at = w.data(); return Q(Single{&at, w.data() + w.size()}, Single{nullptr, nullptr}); }, w, "single pass");
    });
}
template <class Q> static void lvalues(const char* name)
{
    for (int x = 0; x < 3; ++x)
        for (int before = 0; before < 2; ++before)
            item(cat_str(name, ", lvalue argument"), [&]
            {
                Q q;
                Sly a(x), b(x + 5);
                if (before) q.push(Sly(9));
                q.push(a);
                MC_CHECK(a.v == x, SEM, "push changed its argument");
                q.emplace(b);
                MC_CHECK(b.v == x + 5, SEM, "emplace changed its argument");
                if constexpr (requires { q.top(); }) { MC_CHECK(q.top().v == x + 5, SEM, "top"); q.pop(); MC_CHECK(q.top().v == x, SEM, "top"); }
                else { if (before) q.pop(); MC_CHECK(q.front().v == x && q.back().v == x + 5, SEM, "front, back"); }
            });
}
enum class En { A, B, C };
template <class Sly> static void enum_lvalues()
{
    using C = fc::EnumMap<En, Sly>;
    for (int mask = 0; mask < 8; ++mask)
        for (int k = 0; k < 3; ++k)
            for (int how = 0; how < 7; ++how)
                item(cat_str("EnumMap of ", mask, ", lvalue argument for ", k, " to operation ", how), [&]
                {
                    C c;
                    std::map<int, int> m;
                    for (int i = 0; i < 3; ++i) if (mask >> i & 1) { c.try_emplace((En)i, i); m[i] = i; }
                    En e = (En)k;
                    Sly b(8);
                    std::pair<const En, Sly> vt(e, 8);
                    std::pair<En, Sly> pr(e, 8);
                    switch (how)
                    {
                    case 0: c.insert(vt); m.insert({k, 8}); break;
                    case 1: c.emplace(e, b); m.insert({k, 8}); break;
                    case 2: c.try_emplace(e, b); m.insert({k, 8}); break;
                    case 3: c.insert_or_assign(e, b); m[k] = 8; break;
                    case 4: c[e] = b; m[k] = 8; break;
                    case 5: { std::vector<std::pair<En, Sly>> v{{e, 8}, {En::A, 7}}; c.insert(v.begin(), v.end()); m.insert({k, 8}); m.insert({0, 7}); MC_CHECK(v[0].second.v == 8 && v[1].second.v == 7, SEM, "the source changed"); break; }
                    default: { C src; src.try_emplace(e, 8); src.try_emplace(En::B, 7); c.insert(src.begin(), src.end()); m.insert({k, 8}); m.insert({1, 7}); MC_CHECK(src.at(e).v == 8 && (k == 1 || src.at(En::B).v == 7), SEM, "the source changed"); C cp(src.begin(), src.end()); MC_CHECK(src.at(e).v == 8 && cp == src, SEM, "the source changed"); break; }
                    }
                    MC_CHECK(b.v == 8 && vt.second.v == 8 && pr.second.v == 8, SEM, "the argument changed");
                    std::map<int, int> got;
                    for (auto&& [key, v] : c) got[(int)key] = v.v;
                    MC_CHECK(got == m, SEM, "content");
                });
    item("EnumArray, lvalue argument", [&]
    {
        using A = fc::EnumArray<En, Sly>;
        Sly b(8);
        A a{std::pair<En, Sly>{En::A, b}, std::pair<En, Sly>{En::B, b}, std::pair<En, Sly>{En::C, b}};
        a.fill(b);
        a[En::B] = b;
        A d = a;
        MC_CHECK(b.v == 8 && a.at(En::A).v == 8 && a.at(En::B).v == 8 && a.at(En::C).v == 8 && d == a, SEM, "value");
    });
}
static void run_all()
{
#if KIND == 12
    enum_lvalues<Sly>();
    return;
#endif
#if KIND == 9
    lvalues<fc::FixedStack<Sly, 4>>("FixedStack");
#elif KIND == 10
    lvalues<fc::FixedQueue<Sly, 4>>("FixedQueue");
#elif KIND == 11
    lvalues<fc::FixedCircularQueue<Sly, 4>>("FixedCircularQueue");
#endif
#if KIND == 9
    adapter<fc::FixedStack<int, MAXLEN>, true, false>("FixedStack");
#elif KIND == 10
    adapter<fc::FixedQueue<int, MAXLEN>, false, false>("FixedQueue");
#else
    adapter<fc::FixedCircularQueue<int, MAXLEN>, false, true>("FixedCircularQueue");
    adapter<fc::FixedCircularQueue<int, 2>, false, true>("FixedCircularQueue of capacity 2");
#endif
}
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
    run_all();
    g_notes["enumerated"] = 1;
    finish(0);
}
