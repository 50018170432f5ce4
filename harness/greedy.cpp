// How elements are initialised: element types for which T(args...), T{args...}, T{T} and conversions mean different
// things (initializer_list constructors that swallow everything, explicit constructors, aggregates, narrowing). Every
// sequence of up to DEPTH construction / insertion / copy paths, in lockstep with the std container. -DKIND=n -DDEPTH=d
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <deque>
#include <list>
#include <memory>
#include <map>
#include <queue>
#include <set>
#include <stack>
#include <unordered_map>
#include <unordered_set>
using namespace mc;
namespace fc = fixed_containers;

// swallows any braced list, also a list of its own kind
struct Gr
{
    int v = 7;
    Gr() = default;
    Gr(int a, int b) : v(a * 100 + b) {}
    explicit Gr(const char* s) : v((int)std::strlen(s) + 5000) {}
    Gr(std::initializer_list<int> l) : v(-1 - (int)l.size()) {}
    Gr(std::initializer_list<Gr> l) : v(-1000 - (int)l.size()) {}
    Gr(const Gr& o) : v(o.v) {}
    Gr(Gr&& o) noexcept : v(o.v) { o.v += 100000; }
    Gr& operator=(const Gr& o) { v = o.v; return *this; }
    Gr& operator=(Gr&& o) noexcept { v = o.v; return *this; }
    ~Gr() {}
    friend bool operator==(const Gr& a, const Gr& b) { return a.v == b.v; }
    friend auto operator<=>(const Gr& a, const Gr& b) { return a.v <=> b.v; }
};
// the same, trivially copyable
struct Gt
{
    int v = 7;
    Gt() = default;
    Gt(int a, int b) : v(a * 100 + b) {}
    explicit Gt(const char* s) : v((int)std::strlen(s) + 5000) {}
    Gt(std::initializer_list<int> l) : v(-1 - (int)l.size()) {}
    Gt(std::initializer_list<Gt> l) : v(-1000 - (int)l.size()) {}
    friend bool operator==(const Gt& a, const Gt& b) { return a.v == b.v; }
    friend auto operator<=>(const Gt& a, const Gt& b) { return a.v <=> b.v; }
};
// only explicit constructors
struct Ex
{
    int v;
    explicit Ex() : v(3) {}
    explicit Ex(int a, int b) : v(a * 100 + b) {}
    explicit Ex(const char* s) : v((int)std::strlen(s) + 5000) {}
    Ex(const Ex&) = default;
    Ex& operator=(const Ex&) = default;
    friend bool operator==(const Ex& a, const Ex& b) { return a.v == b.v; }
    friend auto operator<=>(const Ex& a, const Ex& b) { return a.v <=> b.v; }
};
// the real thing
using Str = std::string;
using Vec = std::vector<int>;
static int val(const Gr& g) { return g.v; }
static int val(const Gt& g) { return g.v; }
static int val(const Ex& g) { return g.v; }
static int val(const Str& s) { unsigned h = (unsigned)s.size(); for (char c : s) h = h * 31 + (unsigned)c; return (int)h; }
static int val(const Vec& s) { unsigned h = (unsigned)s.size(); for (int c : s) h = h * 31 + (unsigned)c; return (int)h; }
struct Hash { template <class T> std::uint64_t operator()(const T& t) const { return (std::uint64_t)(unsigned)val(t) * 0x9E3779B97F4A7C15u; } std::uint64_t operator()(int i) const { return (std::uint64_t)i << 8; } };

template <class T> T mk(int i) { return i == 0 ? T(2, 65) : T(3, 66); }
using E = en::Old;
template <class C>
static auto key(int i)
{
    if constexpr (std::is_same_v<typename C::key_type, E>) { static const E a[] = {en::OLD_A, en::OLD_B, en::OLD_C}; return a[i]; }
    else return i;
}
// every way to make, add or copy elements; returns false if not available
template <class C, class T>
static std::string path(C& c, int k)
{
    const T a = mk<T>(0);
    T b = mk<T>(1);
    switch (k)
    {
    case 0: { C d(c); c = d; return "copy-construct, copy-assign"; }
    case 1: { C d(std::move(c)); C e(d); c = std::move(e); return "move-construct, move-assign"; }
    case 2: { C d; using std::swap; swap(c, d); swap(c, d); return "swap twice"; }
    default: break;
    }
    if constexpr (requires { typename C::mapped_type; })
    {
        using VT = std::pair<const typename C::key_type, T>;
        switch (k)
        {
        case 3: c.try_emplace(key<C>(0), 2, 70); return "try_emplace(k, 2, 70)";
        case 4: c.try_emplace(key<C>(1)); return "try_emplace(k)";
        case 5: c.try_emplace(key<C>(1), a); return "try_emplace(k, value)";
        case 6: c.try_emplace(key<C>(2), std::move(b)); return "try_emplace(k, move)";
        case 7: c.insert_or_assign(key<C>(0), b); return "insert_or_assign(k, value)";
        case 8: c.insert_or_assign(key<C>(1), std::move(b)); return "insert_or_assign(k, move)";
        case 9: c.insert(VT{key<C>(2), a}); return "insert(pair&&)";
        case 10: { const VT p{key<C>(0), a}; c.insert(p); return "insert(const pair&)"; }
        case 11: { std::vector<VT> v; v.emplace_back(key<C>(0), a); v.emplace_back(key<C>(1), b); c.insert(v.begin(), v.end()); return "insert(range)"; }
        case 12: c.insert({VT{key<C>(1), a}, VT{key<C>(2), b}}); return "insert({..})";
        case 13: c.emplace(key<C>(2), b); return "emplace(k, value)";
        case 14: c.emplace(std::piecewise_construct, std::forward_as_tuple(key<C>(0)), std::forward_as_tuple(4, 71)); return "emplace(piecewise)";
        case 15: c[key<C>(1)]; return "operator[]";
        case 16: c[key<C>(2)] = b; return "operator[] = value";
        case 17: if constexpr (std::is_constructible_v<T, const char*>) c.try_emplace(key<C>(0), "abc"); return "try_emplace(k, explicit)";
        case 18: { C d{VT{key<C>(0), b}, VT{key<C>(2), a}}; c = d; return "construct from {..}"; }
        case 19: { std::vector<VT> v; v.emplace_back(key<C>(2), b); C d(v.begin(), v.end()); c = d; return "construct from range"; }
        case 20: if constexpr (std::is_constructible_v<T, std::initializer_list<int>>) { c.try_emplace(key<C>(1), std::initializer_list<int>{65, 66, 67}); } return "try_emplace(k, list)";
        case 21: { auto it = c.find(key<C>(0)); if (it != c.end()) c.erase(it); return "erase"; }
        default: return {};
        }
    }
    else if constexpr (requires { typename C::key_type; })
    {
        switch (k)
        {
        case 3: c.emplace(2, 70); return "emplace(2, 70)";
        case 4: c.emplace(); return "emplace()";
        case 5: c.emplace(a); return "emplace(value)";
        case 6: c.emplace(std::move(b)); return "emplace(move)";
        case 7: c.insert(a); return "insert(value)";
        case 8: c.insert(std::move(b)); return "insert(move)";
        case 9: { std::vector<T> v; v.push_back(b); v.push_back(a); c.insert(v.begin(), v.end()); return "insert(range)"; }
        case 10: c.insert(std::initializer_list<T>{a, b}); return "insert({..})";
        case 11: if constexpr (std::is_constructible_v<T, const char*>) c.emplace("abc"); return "emplace(explicit)";
        case 12: { C d(std::initializer_list<T>{a, b}); c = d; return "construct from {..}"; }
        case 13: { std::vector<T> v; v.push_back(b); C d(v.begin(), v.end()); c = d; return "construct from range"; }
        case 14: c.emplace_hint(c.begin(), 5, 72); return "emplace_hint(5, 72)";
        case 15: c.emplace_hint(c.end(), b); return "emplace_hint(value)";
        case 16: if constexpr (std::is_constructible_v<T, std::initializer_list<int>>) c.emplace(std::initializer_list<int>{65, 66, 67}); return "emplace(list)";
        case 17: c.erase(a); return "erase";
        default: return {};
        }
    }
    else if constexpr (requires { c.begin(); })
    {
        switch (k)
        {
        case 3: { T& r = c.emplace_back(2, 70); (void)r; return "emplace_back(2, 70)"; }
        case 4: c.emplace_back(); return "emplace_back()";
        case 5: c.emplace_back(a); return "emplace_back(value)";
        case 6: c.push_back(a); return "push_back(value)";
        case 7: c.push_back(std::move(b)); return "push_back(move)";
        case 8: c.insert(c.begin(), a); return "insert(value)";
        case 9: c.insert(c.end(), std::move(b)); return "insert(move)";
        case 10: { std::vector<T> v; v.push_back(b); v.push_back(a); c.insert(c.begin(), v.begin(), v.end()); return "insert(range)"; }
        case 11: c.insert(c.begin(), std::initializer_list<T>{a, b}); return "insert({..})";
        case 12: if constexpr (std::is_constructible_v<T, const char*>) c.emplace_back("abc"); return "emplace_back(explicit)";
        case 13: { C d(std::initializer_list<T>{a, b}); c = d; return "construct from {..}"; }
        case 14: { std::vector<T> v; v.push_back(b); C d(v.begin(), v.end()); c = d; return "construct from range"; }
        case 15: c.emplace(c.begin(), 5, 72); return "emplace(begin, 5, 72)";
        case 16: if constexpr (std::is_constructible_v<T, std::initializer_list<int>>) c.emplace_back(std::initializer_list<int>{65, 66, 67}); return "emplace_back(list)";
        case 17: c.resize(c.size() + 1); return "resize";
        case 18: c.resize(c.size() + 1, b); return "resize(value)";
        case 19: c.assign(2, b); return "assign(2, value)";
        case 20: { C d(std::size_t{2}, a); c = d; return "construct(2, value)"; }
        case 21: { C d(std::size_t{2}); c = d; return "construct(2)"; }
        case 22: c.assign(std::initializer_list<T>{b, a}); return "assign({..})";
        case 23: if (!c.empty()) c.erase(c.begin()); return "erase(begin)";
        case 24: if constexpr (requires { c.emplace_front(2, 3); }) { c.emplace_front(6, 73); c.push_front(a); } return "emplace_front, push_front";
        case 25: c.emplace(c.begin(), a); return "emplace(begin, value)";
        case 26: c.emplace(c.begin()); return "emplace(begin)";
        default: return {};
        }
    }
    else
    {
        switch (k)
        {
        case 3: c.emplace(2, 70); return "emplace(2, 70)";
        case 4: c.emplace(); return "emplace()";
        case 5: c.emplace(a); return "emplace(value)";
        case 6: c.push(a); return "push(value)";
        case 7: c.push(std::move(b)); return "push(move)";
        case 8: if constexpr (std::is_constructible_v<T, const char*>) c.emplace("abc"); return "emplace(explicit)";
        case 9: if constexpr (std::is_constructible_v<T, std::initializer_list<int>>) c.emplace(std::initializer_list<int>{65, 66, 67}); return "emplace(list)";
        case 10: if (!c.empty()) c.pop(); return "pop";
        default: return {};
        }
    }
}
template <class C>
static std::vector<std::pair<int, int>> content(const C& c)
{
    std::vector<std::pair<int, int>> r;
    if constexpr (requires { typename C::mapped_type; }) { for (auto&& [k, v] : c) r.emplace_back((int)k, val(v)); std::sort(r.begin(), r.end()); }
    else if constexpr (requires { typename C::key_type; }) { for (auto& v : c) r.emplace_back(0, val(v)); std::sort(r.begin(), r.end()); }
    else if constexpr (requires { c.begin(); }) { for (auto& v : c) r.emplace_back(0, val(v)); }
    else
    {
        C d(c);
        while (!d.empty())
        {
            if constexpr (requires { d.top(); }) r.emplace_back(0, val(d.top()));
            else r.emplace_back(0, val(d.front()));
            d.pop();
        }
    }
    return r;
}
template <class C, class S, class T>
static void lockstep(const char* nm, std::vector<int>& seq, int depth)
{
    {
        C c;
        S s;
        std::string w = nm, step;
        for (int k : seq)
        {
            step = path<C, T>(c, k);
            if (step.empty()) return;
            path<S, T>(s, k);
            w += ": " + step;
        }
        g_current_op = w;
        ++g_states;
        ++g_transitions;
        const auto x = content(c), y = content(s);
        std::string xs, ys;
        for (auto& p : x) xs += cat_str(" ", p.first, ":", p.second);
        for (auto& p : y) ys += cat_str(" ", p.first, ":", p.second);
        MC_CHECK(x == y, SEM, "content", xs, " expected", ys);
    }
    if ((int)seq.size() == depth) return;
    for (int k = 0; k < 32; ++k)
    {
        seq.push_back(k);
        lockstep<C, S, T>(nm, seq, depth);
        seq.pop_back();
    }
}
template <class C, class S, class T>
static void go(const char* nm)
{
    std::vector<int> seq;
    lockstep<C, S, T>(nm, seq, DEPTH);
}
template <class T>
static void all(const char* nm)
{
    constexpr std::size_t N = 3 * DEPTH + 2;
#if KIND == 0
    go<fc::FixedVector<T, N>, std::vector<T>, T>(nm);
#elif KIND == 1
    go<fc::FixedDeque<T, N>, std::deque<T>, T>(nm);
#elif KIND == 2
    go<fc::FixedCircularDeque<T, N>, std::deque<T>, T>(nm);
#elif KIND == 3
    go<fc::FixedList<T, N>, std::list<T>, T>(nm);
#elif KIND == 4
    go<fc::FixedMap<int, T, N>, std::map<int, T>, T>(nm);
#elif KIND == 5
    go<fc::FixedSet<T, N>, std::set<T>, T>(nm);
#elif KIND == 6
    go<fc::FixedUnorderedMap<int, T, N, Hash>, std::unordered_map<int, T, Hash>, T>(nm);
#elif KIND == 7
    go<fc::FixedUnorderedSet<T, N, Hash>, std::unordered_set<T, Hash>, T>(nm);
#elif KIND == 8
    go<fc::EnumMap<E, T>, std::map<E, T>, T>(nm);
#elif KIND == 9
    go<fc::FixedStack<T, N>, std::stack<T>, T>(nm);
    go<fc::FixedQueue<T, N>, std::queue<T>, T>(nm);
#endif
}
// piecewise construction: every kind of tuple, every value category
template <template <class> class M>
static void piecewise(const char* nm)
{
    using PC = std::piecewise_construct_t;
    auto say = [&](const char* w) { g_current_op = cat_str(nm, ": emplace(piecewise, ", w, ")"); ++g_states; ++g_transitions; };
    {
        say("moved unique_ptr");
        M<std::unique_ptr<int>> c;
        auto p = std::make_unique<int>(4);
        int* raw = p.get();
        auto [it, ok] = c.emplace(PC{}, std::forward_as_tuple(key<decltype(c)>(0)), std::forward_as_tuple(std::move(p)));
        MC_CHECK(ok && it->second.get() == raw && !p && c.size() == 1, SEM, "the pointer was not moved into the map");
        say("tuple that owns a unique_ptr");
        std::tuple<std::unique_ptr<int>> t{std::make_unique<int>(5)};
        raw = std::get<0>(t).get();
        auto [it2, ok2] = c.emplace(PC{}, std::make_tuple(key<decltype(c)>(1)), std::move(t));
        MC_CHECK(ok2 && it2->second.get() == raw && !std::get<0>(t) && c.size() == 2, SEM, "the pointer was not moved out of the tuple");
        say("present key");
        auto q = std::make_unique<int>(6);
        auto [it3, ok3] = c.emplace(PC{}, std::forward_as_tuple(key<decltype(c)>(0)), std::forward_as_tuple(nullptr));
        MC_CHECK(!ok3 && it3->second && *it3->second == 4, SEM, "an existing entry was changed");
    }
    {
        M<std::string> c;
        say("lvalue tuples");
        auto k = std::make_tuple(key<decltype(c)>(0));
        auto v = std::make_tuple(std::string("abc"));
        c.emplace(PC{}, k, v);
        MC_CHECK(std::get<0>(v) == "abc" && c.begin()->second == "abc", SEM, "an lvalue tuple was moved from");
        say("const tuples");
        const auto k1 = std::make_tuple(key<decltype(c)>(1));
        const auto v1 = std::make_tuple(std::string("abcd"));
        c.emplace(PC{}, k1, v1);
        MC_CHECK(c.at(key<decltype(c)>(1)) == "abcd", SEM, "const tuple");
        say("rvalue tuple of references to lvalues");
        std::string s = "xyz";
        c.emplace(PC{}, std::forward_as_tuple(key<decltype(c)>(2)), std::forward_as_tuple(s));
        MC_CHECK(s == "xyz" && c.at(key<decltype(c)>(2)) == "xyz", SEM, "an lvalue was moved from");
        say("several arguments");
        c.erase(key<decltype(c)>(2));
        c.emplace(PC{}, std::forward_as_tuple(key<decltype(c)>(2)), std::forward_as_tuple(std::size_t{3}, 'q'));
        MC_CHECK(c.at(key<decltype(c)>(2)) == "qqq", SEM, "arguments");
        say("no arguments");
        c.erase(key<decltype(c)>(2));
        c.emplace(PC{}, std::forward_as_tuple(key<decltype(c)>(2)), std::tuple<>());
        MC_CHECK(c.at(key<decltype(c)>(2)).empty() && c.size() == 3, SEM, "no arguments");
    }
}
#if KIND == 4
template <class V> using MapK = fc::FixedMap<int, V, 4>;
#elif KIND == 6
template <class V> using MapK = fc::FixedUnorderedMap<int, V, 4>;
#elif KIND == 8
template <class V> using MapK = fc::EnumMap<E, V>;
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    init_slots(64);
    g_program = PROG;
    g_notes["enumerated"] = 1;
    all<Gr>("Gr");
    all<Gt>("Gt");
    all<Ex>("Ex");
    all<Str>("std::string");
    all<Vec>("std::vector<int>");
#if KIND == 4 || KIND == 6 || KIND == 8
    piecewise<MapK>("piecewise");
#endif
    MC_CHECK(g_san_reports == 0, SEM | LIFE, "undefined behaviour reported");
    finish(0);
}
