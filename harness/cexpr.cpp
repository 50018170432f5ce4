// Constant evaluation against run time: every operation sequence up to DEPTH is evaluated by the compiler
// (as part of the initialiser of a constexpr object) and by the built program, and every digest of everything
// observable has to be the same. The compiler refuses undefined behaviour, leaks and non-constant operations, so
// a sequence that cannot be constant evaluated makes the program ill-formed, which the runner reports.
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace mc;
namespace fc = fixed_containers;
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef CAP
#define CAP 3
#endif
// ---------------------------------------------------------------- digest of observations
struct Dig
{
    std::uint64_t h = 1469598103934665603ULL;
    constexpr void add(std::uint64_t x) { h = (h ^ (x + 0x9E3779B97F4A7C15ULL)) * 1099511628211ULL; h ^= h >> 29; }
};
// ---------------------------------------------------------------- element types
struct Owner  // owns memory, also once it was moved from: leaks and double destruction are errors in constant evaluation
{
    int* p;
    constexpr Owner() : p(new int(0)) {}
    constexpr Owner(int v) : p(new int(v)) {}
    constexpr Owner(const Owner& o) : p(new int(*o.p)) {}
    constexpr Owner(Owner&& o) noexcept : p(o.p) { o.p = new int(-7); }
    constexpr Owner& operator=(const Owner& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; }
    constexpr Owner& operator=(Owner&& o) noexcept { if (this != &o) { int* q = p; p = o.p; o.p = q; *q = -7; } return *this; }
    constexpr ~Owner() { delete p; }
    constexpr int get() const { return *p; }
    constexpr bool operator==(const Owner& o) const { return *p == *o.p; }
    constexpr auto operator<=>(const Owner& o) const { return *p <=> *o.p; }
};
struct NonTriv
{
    int v;
    constexpr NonTriv() : v(0) {}
    constexpr NonTriv(int x) : v(x) {}
    constexpr NonTriv(const NonTriv& o) : v(o.v) {}
    constexpr NonTriv(NonTriv&& o) noexcept : v(o.v) { o.v = -7; }
    constexpr NonTriv& operator=(const NonTriv& o) { v = o.v; return *this; }
    constexpr NonTriv& operator=(NonTriv&& o) noexcept { const int t = o.v; o.v = -7; v = t; return *this; }
    constexpr ~NonTriv() { v = -99; }
    constexpr int get() const { return v; }
    constexpr bool operator==(const NonTriv&) const = default;
    constexpr auto operator<=>(const NonTriv&) const = default;
};
struct Moves  // move-only
{
    int v;
    constexpr Moves(int x) : v(x) {}
    constexpr Moves(Moves&& o) noexcept : v(o.v) { o.v = -7; }
    constexpr Moves& operator=(Moves&& o) noexcept { v = o.v; o.v = -7; return *this; }
    constexpr int get() const { return v; }
    constexpr bool operator==(const Moves&) const = default;
    constexpr auto operator<=>(const Moves&) const = default;
};
template <class T> constexpr std::uint64_t code(const T& t)
{
    if constexpr (requires { t.get(); }) return (std::uint64_t)(std::int64_t)t.get();
    else if constexpr (requires { t.second; }) return code(t.first) * 1000003ULL + code(t.second);
    else if constexpr (std::is_enum_v<T>) return (std::uint64_t)t + 77;
    else return (std::uint64_t)t;
}
#ifndef ELEM
#define ELEM int
#endif
using E = ELEM;
struct Hash { constexpr std::uint64_t operator()(const E& e) const { return code(e) % 2; } };
struct Hash0 { constexpr std::uint64_t operator()(const E&) const { return ~0ULL; } };
#ifndef HASH
#define HASH Hash
#endif
enum class Key : std::int8_t { M = -3, Z = 0, S = 7 };
constexpr Key KEYS[] = {Key::M, Key::Z, Key::S};

#define IS(k) (KIND == k)
enum { VECTOR, DEQUE, CIRC, LIST, STRING, MAP, SET, UMAP, USET, EMAP, ESET, EARR, STACK, QUEUE, CQUEUE };
#define SEQ (KIND == VECTOR || KIND == DEQUE || KIND == CIRC || KIND == LIST)
#define ASSOC (KIND == MAP || KIND == SET || KIND == UMAP || KIND == USET)
#define ADAPT (KIND == STACK || KIND == QUEUE || KIND == CQUEUE)
template <int K> struct Pick;
template <> struct Pick<VECTOR> { using type = fc::FixedVector<E, CAP>; };
template <> struct Pick<DEQUE> { using type = fc::FixedDeque<E, CAP>; };
template <> struct Pick<CIRC> { using type = fc::FixedCircularDeque<E, CAP>; };
template <> struct Pick<LIST> { using type = fc::FixedList<E, CAP>; };
template <> struct Pick<STRING> { using type = fc::FixedString<CAP>; };
template <> struct Pick<MAP> { using type = fc::FixedMap<E, E, CAP>; };
template <> struct Pick<SET> { using type = fc::FixedSet<E, CAP>; };
template <> struct Pick<UMAP> { using type = fc::FixedUnorderedMap<E, E, CAP, HASH>; };
template <> struct Pick<USET> { using type = fc::FixedUnorderedSet<E, CAP, HASH>; };
template <> struct Pick<EMAP> { using type = fc::EnumMap<Key, E>; };
template <> struct Pick<ESET> { using type = fc::EnumSet<Key>; };
template <> struct Pick<EARR> { using type = fc::EnumArray<Key, E>; };
template <> struct Pick<STACK> { using type = fc::FixedStack<E, CAP>; };
template <> struct Pick<QUEUE> { using type = fc::FixedQueue<E, CAP>; };
template <> struct Pick<CQUEUE> { using type = fc::FixedCircularQueue<E, CAP>; };
using C = Pick<KIND>::type;
constexpr bool COPYABLE = std::is_copy_constructible_v<E>;
constexpr bool DEFAULTS = std::is_default_constructible_v<E>;

// ---------------------------------------------------------------- operations
template <class It> constexpr It at(It b, std::size_t n) { for (std::size_t i = 0; i < n; ++i) ++b; return b; }
template <class It> constexpr std::uint64_t off(It b, It x) { std::uint64_t n = 0; while (b != x) { ++b; if (++n > 100) break; } return n; }

template <class K>
constexpr bool apply_seq(K& c, int op, Dig& d)
{
    constexpr bool FRONT = requires { c.push_front(E(1)); };
    const std::size_t n = c.size();
    const std::size_t room = CAP - n;
    const bool full = room == 0 && KIND != CIRC;
    auto res = [&](auto it) { d.add(off(c.begin(), it)); };
    int k = 0;
    if (op == k++) { if (full) return false; c.push_back(E(1)); return true; }
    if (op == k++) { if (full) return false; d.add(code(c.emplace_back(2))); return true; }
    if (op == k++) { if constexpr (COPYABLE) { if (full) return false; const E e(3); c.push_back(e); return true; } return false; }
    if (op == k++) { if constexpr (FRONT) { if (full) return false; c.push_front(E(4)); return true; } return false; }
    if (op == k++) { if constexpr (FRONT) { if (full) return false; d.add(code(c.emplace_front(5))); return true; } return false; }
    if (op == k++) { if (n == 0) return false; c.pop_back(); return true; }
    if (op == k++) { if constexpr (FRONT) { if (n == 0) return false; c.pop_front(); return true; } return false; }
    if (op == k++) { c.clear(); return true; }
    for (std::size_t p = 0; p <= CAP; ++p)
    {
        if (op == k++) { if (p >= n) return false; res(c.erase(at(c.cbegin(), p))); return true; }
        if (op == k++) { if (p > n || full || (KIND == CIRC && room == 0)) return false; res(c.insert(at(c.cbegin(), p), E(6))); return true; }
    }
    if (op == k++) { if (n < 2) return false; res(c.erase(at(c.cbegin(), 0), at(c.cbegin(), 2))); return true; }
    if (op == k++) { if (n < 1) return false; res(c.erase(at(c.cbegin(), 1), c.cend())); return true; }
    if (op == k++) { if (full || (KIND == CIRC && room == 0)) return false; res(c.emplace(at(c.cbegin(), n / 2), 7)); return true; }
    if constexpr (COPYABLE)
    {
        if (op == k++) { if (room < 2) return false; res(c.insert(at(c.cbegin(), n / 2), {E(8), E(9)})); return true; }
        if (op == k++) { if (room < 2) return false; const E a[] = {E(10), E(22)}; res(c.insert(c.cbegin(), a, a + 2)); return true; }
        if (op == k++) { c.assign({E(11), E(12)}); return true; }
        if (op == k++) { const E e(13); c.assign(std::size_t{CAP}, e); return true; }
        if (op == k++) { if constexpr (DEFAULTS) { c.resize(CAP - 1); return true; } return false; }
        if (op == k++) { const E e(14); c.resize(CAP, e); return true; }
        if (op == k++) { K o(c); d.add(o == c); o.clear(); d.add(o == c); c = o; return true; }
        if (op == k++) { K o(c); if (room > 0) o.push_back(E(15)); d.add(o == c); c = o; return true; }
        if (op == k++) { K o{E(16)}; d.add(code(o.front())); c = o; return true; }
        if (op == k++) { K o{E(17), E(18)}; std::swap(o, c); d.add(o.size()); for (auto& x : o) d.add(code(x)); return true; }
        if (op == k++) { K o(c); d.add(std::as_const(o) == c); if constexpr (requires { o <=> c; }) d.add((o <=> c) == 0); return true; }
        if (op == k++) { if constexpr (requires { fc::erase(c, E(1)); }) { d.add(fc::erase(c, E(1))); return true; } return false; }
    }
    if (op == k++) { K o(std::move(c)); d.add(o.size()); for (auto& x : o) d.add(code(x)); c.clear(); c = std::move(o); return true; }
    if (op == k++) { if (n == 0) return false; c.front() = E(19); return true; }
    if (op == k++) { if (n == 0) return false; c.back() = E(20); return true; }
    if (op == k++) { if constexpr (requires { c[0]; }) { if (n == 0) return false; c[n - 1] = E(21); d.add(code(c.at(n / 2))); return true; } return false; }
    if (op == k++) { if constexpr (requires { fc::erase_if(c, [](const E& e) { return code(e) % 2 == 0; }); }) { d.add(fc::erase_if(c, [](const E& e) { return code(e) % 2 == 0; })); return true; } return false; }
    return false;
}
constexpr int OPS_SEQ = 8 + 2 * (CAP + 1) + 3 + (COPYABLE ? 12 : 0) + 5;

template <class K>
constexpr bool apply_string(K& c, int op, Dig& d)
{
    const std::size_t n = c.size();
    const std::size_t room = CAP - n;
    auto res = [&](auto it) { d.add(off(c.begin(), it)); };
    int k = 0;
    if (op == k++) { if (room == 0) return false; c.push_back('a'); return true; }
    if (op == k++) { if (room == 0) return false; c += 'b'; return true; }
    if (op == k++) { if (room < 2) return false; c += "cd"; return true; }
    if (op == k++) { if (room < 2) return false; c.append(std::string_view("ef")); return true; }
    if (op == k++) { if (room < 1) return false; c.append({'g'}); return true; }
    if (op == k++) { if (n == 0) return false; c.pop_back(); return true; }
    if (op == k++) { c.clear(); return true; }
    if (op == k++) { c = "hi"; return true; }
    if (op == k++) { c = std::string_view("jk\0", 3); return true; }
    if (op == k++) { c.assign(std::size_t{2}, 'l'); return true; }
    if (op == k++) { c.assign({'m', 'n'}); return true; }
    if (op == k++) { c.resize(CAP - 1); return true; }
    if (op == k++) { c.resize(CAP, 'p'); return true; }
    if (op == k++) { if (n == 0) return false; res(c.erase(c.cbegin())); return true; }
    if (op == k++) { if (n < 2) return false; res(c.erase(c.cbegin(), c.cbegin() + 2)); return true; }
    if (op == k++) { if (n == 0) return false; res(c.erase(c.cend() - 1)); return true; }
    if (op == k++) { if (room < 2) return false; res(c.insert(c.cbegin(), std::string_view("zy"))); return true; }
    if (op == k++) { if (room == 0) return false; res(c.insert(c.cbegin(), 'q')); return true; }
    if (op == k++) { if (room == 0) return false; res(c.insert(c.cend(), 'r')); return true; }
    if (op == k++) { if (room < 2) return false; res(c.insert(c.cbegin() + (long)(n / 2), {'s', 't'})); return true; }
    if (op == k++) { if (n == 0) return false; c.front() = 'u'; return true; }
    if (op == k++) { if (n == 0) return false; c[n - 1] = 'v'; return true; }
    if (op == k++) { K o(c); d.add(o == c); o = "w"; d.add(o == c); d.add((o <=> c) < 0); c = o; return true; }
    if (op == k++) { K o("xy"); std::swap(o, c); for (char ch : o) d.add(code(ch)); return true; }
    if (op == k++) { d.add(c.starts_with("a")); d.add(c.ends_with('b')); d.add(c.compare("b") < 0); if (n > 0) d.add(code(c.at(0))); return true; }
    if (op == k++) { const auto s = c.substr(n / 2); d.add(s.size()); for (char ch : s) d.add(code(ch)); return true; }
    if (op == k++) { const std::string_view s = c; d.add(s.size()); d.add(s == c); return true; }
    return false;
}
constexpr int OPS_STRING = 27;

constexpr int NKEY = CAP + 1;
template <class K>
constexpr bool apply_assoc(K& c, int op, Dig& d)
{
    constexpr bool M = requires { typename K::mapped_type; };
    const std::size_t n = c.size();
    int k = 0;
    auto res = [&](const auto& r) { d.add(r.second); d.add(code(*r.first)); };
    for (int key = 0; key < NKEY; ++key)
    {
        const E e(key);
        const bool has = c.contains(e);
        const bool no = n == CAP && !has;
        if (op == k++) { if (no) return false; if constexpr (M) { if constexpr (COPYABLE) res(c.insert({E(key), E(key + 20)})); else res(c.try_emplace(E(key), key + 20)); } else res(c.insert(E(key))); return true; }
        if (op == k++) { if (!has) return false; d.add(c.erase(e)); return true; }
        if (op == k++) { if (!has) return false; auto it = c.erase(c.find(e)); d.add(it == c.end() ? 999 : code(*it)); return true; }
        if (op == k++) { if (no) return false; if constexpr (M) res(c.try_emplace(E(key), key + 30)); else res(c.emplace(key)); return true; }
        if constexpr (M)
        {
            if (op == k++) { if (no) return false; if constexpr (DEFAULTS) { c[E(key)] = E(key + 40); return true; } return false; }
            if (op == k++) { if (no) return false; res(c.insert_or_assign(E(key), E(key + 50))); return true; }
            if (op == k++) { if (!has) return false; c.at(e) = E(key + 60); d.add(code(std::as_const(c).at(e))); return true; }
        }
    }
    if (op == k++) { c.clear(); return true; }
    if (op == k++) { if (n == 0) return false; auto it = c.erase(c.cbegin()); d.add(it == c.end() ? 999 : code(*it)); return true; }
    if (op == k++) { if (n < 2) return false; auto it = c.erase(c.cbegin(), at(c.cbegin(), 2)); d.add(it == c.end() ? 999 : code(*it)); return true; }
    if (op == k++) { d.add(fc::erase_if(c, [](const auto& x) { return code(x) % 2 == 1; })); return true; }
    if (op == k++) { if constexpr (COPYABLE) { K o(c); d.add(o == c); o.clear(); d.add(o == c); return true; } return false; }
    if (op == k++) { if constexpr (COPYABLE) { K o(c); if (n > 0) o.erase(o.cbegin()); d.add(o == c); c = o; return true; } return false; }
    if (op == k++) { if constexpr (COPYABLE) { K o{}; if constexpr (M) o.insert({E(1), E(70)}); else o.insert(E(1)); std::swap(o, c); d.add(o.size()); return true; } return false; }
    if (op == k++) { K o(std::move(c)); d.add(o.size()); c.clear(); c = std::move(o); return true; }
    return false;
}
template <class K>
constexpr void look_assoc(const K& c, Dig& d)
{
    for (int key = 0; key < NKEY; ++key)
    {
        const E e(key);
        d.add(c.contains(e));
        d.add(c.count(e));
        auto f = c.find(e);
        d.add(f == c.end() ? 999 : code(*f));
        if constexpr (requires { c.lower_bound(e); })
        {
            auto l = c.lower_bound(e), u = c.upper_bound(e);
            d.add(l == c.end() ? 999 : code(*l));
            d.add(u == c.end() ? 999 : code(*u));
        }
        if constexpr (requires { c.equal_range(e); })
        {
            auto [a, b] = c.equal_range(e);
            d.add(off(a, b));
        }
    }
}
constexpr int OPS_ASSOC = NKEY * ((KIND == MAP || KIND == UMAP) ? 7 : 4) + 8;

template <class K>
constexpr bool apply_enum(K& c, int op, Dig& d)
{
    int k = 0;
    constexpr bool M = KIND == EMAP;
    if constexpr (KIND == EARR)
    {
        for (Key key : KEYS)
        {
            if (op == k++) { c[key] = E(1); return true; }
            if (op == k++) { c.at(key) = E(2); d.add(code(std::as_const(c).at(key))); return true; }
        }
        if (op == k++) { c.fill(E(3)); return true; }
        if (op == k++) { K o(c); o[Key::Z] = E(4); d.add(o == c); std::swap(o, c); return true; }
        if (op == k++) { c = K{}; return true; }
        return false;
    }
    else
    {
        auto res = [&](const auto& r) { d.add(r.second); d.add(off(c.begin(), r.first)); };
        for (Key key : KEYS)
        {
            const bool has = c.contains(key);
            if (op == k++) { if constexpr (M) res(c.insert({key, E(5)})); else res(c.insert(key)); return true; }
            if (op == k++) { d.add(c.erase(key)); return true; }
            if (op == k++) { if (!has) return false; auto it = c.erase(c.find(key)); d.add(off(c.begin(), it)); return true; }
            if (op == k++) { if constexpr (M) res(c.try_emplace(key, 6)); else res(c.emplace(key)); return true; }
            if (op == k++) { if constexpr (M) { c[key] = E(7); return true; } return false; }
            if (op == k++) { if constexpr (M) { res(c.insert_or_assign(key, E(8))); return true; } return false; }
            if (op == k++) { if constexpr (M) { if (!has) return false; c.at(key) = E(9); return true; } return false; }
        }
        if (op == k++) { c.clear(); return true; }
        if (op == k++) { if (c.empty()) return false; auto it = c.erase(c.cbegin(), c.cend()); d.add(off(c.begin(), it)); return true; }
        if (op == k++) { K o(c); d.add(o == c); o.clear(); d.add(o == c); return true; }
        if (op == k++) { K o{}; std::swap(o, c); d.add(o.size()); return true; }
        if (op == k++) { K o(std::move(c)); d.add(o.size()); c.clear(); c = std::move(o); return true; }
        if (op == k++) { if constexpr (requires { fc::erase_if(c, [](const auto&) { return true; }); }) { d.add(fc::erase_if(c, [](const auto& x) { if constexpr (KIND == EMAP) return x.first == Key::Z; else return x == Key::Z; })); return true; } return false; }
        if constexpr (KIND == ESET) { if (op == k++) { c = K::complement_of(c); return true; } if (op == k++) { c = K::all(); return true; } }
        return false;
    }
}
constexpr int OPS_ENUM = KIND == EARR ? 9 : 21 + 6 + 2;

template <class K>
constexpr bool apply_adapt(K& c, int op, Dig& d)
{
    const std::size_t n = c.size();
    const bool full = n == CAP && KIND != CQUEUE;
    int k = 0;
    if (op == k++) { if (full) return false; c.push(E(1)); return true; }
    if (op == k++) { if (full) return false; c.emplace(2); return true; }
    if (op == k++) { if (full) return false; c.push(E(3)); return true; }
    if (op == k++) { if (n == 0) return false; c.pop(); return true; }
    if (op == k++) { if constexpr (COPYABLE) { K o(c); d.add(o == c); if (n > 0) o.pop(); d.add(o == c); c = o; return true; } return false; }
    if (op == k++) { K o{}; std::swap(o, c); d.add(o.size()); c = std::move(o); return true; }
    if (op == k++) { if (n == 0) return false; if constexpr (KIND == STACK) c.top() = E(4); else c.back() = E(4); return true; }
    if (op == k++) { if (n == 0) return false; if constexpr (KIND == STACK) c.top() = E(5); else c.front() = E(5); return true; }
    return false;
}
constexpr int OPS_ADAPT = 8;

constexpr int NOPS = SEQ ? OPS_SEQ : KIND == STRING ? OPS_STRING : ASSOC ? OPS_ASSOC : ADAPT ? OPS_ADAPT : OPS_ENUM;
template <class K>
constexpr bool apply(K& c, int op, Dig& d)
{
    if constexpr (SEQ) return apply_seq(c, op, d);
    else if constexpr (KIND == STRING) return apply_string(c, op, d);
    else if constexpr (ASSOC) return apply_assoc(c, op, d);
    else if constexpr (ADAPT) return apply_adapt(c, op, d);
    else return apply_enum(c, op, d);
}
template <class K>
constexpr void observe(const K& c, Dig& d)
{
    if constexpr (KIND != EARR || requires { c.size(); }) d.add(c.size());
    if constexpr (requires { c.empty(); }) d.add(c.empty());
    if constexpr (requires { c.max_size(); }) d.add(c.max_size());
    if constexpr (requires { c.begin(); })
    {
        for (auto&& x : c) d.add(code(x));
        if constexpr (requires { c.rbegin(); }) for (auto it = c.rbegin(); it != c.rend(); ++it) d.add(code(*it));
        if constexpr (requires { c.end() - c.begin(); }) { d.add((std::uint64_t)(c.end() - c.begin())); for (std::size_t i = 0; i < c.size(); ++i) d.add(code(c.begin()[(long)i])); }
        auto it = c.end();
        if constexpr (requires { --it; }) while (it != c.begin()) { --it; d.add(code(*it)); }
    }
    if constexpr (KIND == STRING) { for (std::size_t i = 0; i <= c.size(); ++i) d.add(code(c.data()[i])); d.add(code(c.c_str()[c.size()])); }
    if constexpr (ASSOC) look_assoc(c, d);
    if constexpr (KIND == EMAP || KIND == ESET) for (Key k : KEYS) { d.add(c.contains(k)); d.add(off(c.begin(), c.find(k))); if constexpr (requires { c.count(k); }) d.add(c.count(k)); }
    if constexpr (KIND == EARR) for (Key k : KEYS) d.add(code(c[k]));
    if constexpr (ADAPT) { if (!c.empty()) { if constexpr (KIND == STACK) d.add(code(c.top())); else { d.add(code(c.front())); d.add(code(c.back())); } } }
}
// ---------------------------------------------------------------- starts
constexpr int NSTART = ADAPT ? 1 : KIND == EARR ? 1 : COPYABLE ? 4 : 1;
template <class K>
constexpr K make(int start)
{
    if constexpr (NSTART > 1 && (SEQ || KIND == STRING))
    {
        if (start == 1) { if constexpr (KIND == STRING) return K("ab"); else if constexpr (DEFAULTS) return K(std::size_t{2}); else return K(std::initializer_list<E>{E(1), E(2)}); }
        if (start == 2) { if constexpr (KIND == STRING) return K(std::size_t{CAP}, 'z'); else { const E e(31); return K(std::size_t{CAP}, e); } }
        if (start == 3) { if constexpr (KIND == STRING) return K(std::string_view("q")); else { const E a[] = {E(32), E(33)}; return K(a, a + 2); } }
    }
    else if constexpr (NSTART > 1)
    {
        if constexpr (KIND == MAP || KIND == UMAP)
        {
            if (start == 1) { return K(std::initializer_list<std::pair<const E, E>>{{E(1), E(2)}, {E(0), E(3)}}); }
            if (start == 2) { return K(std::initializer_list<std::pair<const E, E>>{{E(2), E(2)}, {E(0), E(3)}, {E(1), E(4)}}); }
            if (start == 3) { const std::pair<E, E> a[] = {{E(3), E(1)}, {E(3), E(2)}}; return K(a, a + 2); }
        }
        else if constexpr (KIND == SET || KIND == USET)
        {
            if (start == 1) { return K(std::initializer_list<E>{E(1), E(0)}); }
            if (start == 2) { return K(std::initializer_list<E>{E(2), E(0), E(1)}); }
            if (start == 3) { const E a[] = {E(3), E(3)}; return K(a, a + 2); }
        }
        else if constexpr (KIND == EMAP)
        {
            if (start == 1) { return K(std::initializer_list<std::pair<const Key, E>>{{Key::S, E(1)}}); }
            if (start == 2) { return K(std::initializer_list<std::pair<const Key, E>>{{Key::S, E(1)}, {Key::M, E(2)}}); }
            if (start == 3) { const std::pair<Key, E> a[] = {{Key::Z, E(1)}, {Key::Z, E(2)}}; return K(a, a + 2); }
        }
        else
        {
            if (start == 1) { return K(std::initializer_list<Key>{Key::S}); }
            if (start == 2) { return K(K::all()); }
            if (start == 3) { const Key a[] = {Key::Z, Key::M}; return K(a, a + 2); }
        }
    }
    return K();
}
inline volatile unsigned char g_garbage = 0xA5;
constexpr bool run_on(C& c, const int* ops, int n, std::uint64_t& out)
{
    Dig d;
    bool ok = true;
    if (n == 0) observe(c, d);
    for (int i = 0; i < n; ++i)
    {
        Dig scratch;
        if (!apply(c, ops[i], i + 1 == n ? d : scratch)) { ok = false; break; }
        if (i + 1 == n) observe(c, d);
    }
    out = d.h;
    return ok;
}
inline bool run_rt(int start, const int* ops, int n, std::uint64_t& out)
{
    alignas(C) static unsigned char buf[sizeof(C)];
    std::memset(buf, g_garbage, sizeof buf);
    C* c = ::new (static_cast<void*>(buf)) C(make<C>(start));
    const bool ok = run_on(*c, ops, n, out);
    c->~C();
    return ok;
}
// Run one path; returns false when an operation of it does not apply. At run time the container is built in
// memory that is full of garbage.
constexpr bool run_path(int start, const int* ops, int n, std::uint64_t& out)
{
    if (std::is_constant_evaluated())
    {
        C c = make<C>(start);
        return run_on(c, ops, n, out);
    }
    return run_rt(start, ops, n, out);
}
struct Cell { std::uint64_t dig = 0; std::uint32_t count = 0; };
// cell of (start, first operation [, second operation]): the digests of all paths below it
constexpr int CELLS2 = DEPTH >= 2 ? NOPS : 0;
struct Table { Cell root; Cell one[NOPS]{}; Cell two[NOPS][CELLS2 == 0 ? 1 : CELLS2]{}; };
constexpr void put(Cell& c, std::uint64_t h) { Dig d; d.h = c.dig + 1; d.add(h); c.dig = d.h; ++c.count; }
constexpr void below(int start, int* ops, int n, Cell& cell)
{
    std::uint64_t h = 0;
    if (!run_path(start, ops, n, h)) return;
    put(cell, h);
    if (n == DEPTH) return;
    for (int o = 0; o < NOPS; ++o) { ops[n] = o; below(start, ops, n + 1, cell); }
}
constexpr Table table(int start, int first_from, int first_to)
{
    Table t{};
    std::uint64_t h = 0;
    int ops[DEPTH + 1]{};
    run_path(start, ops, 0, h);
    put(t.root, h);
    for (int a = first_from; a < first_to; ++a)
    {
        ops[0] = a;
        if (!run_path(start, ops, 1, h)) continue;
        put(t.one[a], h);
        if constexpr (DEPTH >= 2)
            for (int b = 0; b < NOPS; ++b) { ops[1] = b; below(start, ops, 2, t.two[a][b]); }
    }
    return t;
}
#ifndef FROM
#define FROM 0
#define TO NOPS
#endif
constexpr int LAST = TO < NOPS ? TO : NOPS;
template <int S> inline constexpr Table COMPILED = table(S, FROM, LAST);

// Objects that are constants themselves, used at run time
constexpr C made(int start, int a, int b, bool& ok)
{
    C c = make<C>(start);
    Dig d;
    ok = a < 0 || apply(c, a, d);
    if (ok && b >= 0) ok = apply(c, b, d);
    return c;
}
template <int S, int A>
struct Constant
{
    static constexpr bool OK = [] { bool ok = false; (void)made(S, A, -1, ok); return ok; }();
    static constexpr C VALUE = [] { bool ok = false; return made(S, OK ? A : -1, -1, ok); }();
};
template <int S, int A>
void constant()
{
    g_current_op = cat_str("constant object: start ", S, ", operation ", A);
    ++g_transitions;
    ++g_states;
    const Event ev = guarded([]
    {
        const C& k = Constant<S, A>::VALUE;
        bool ok = false;
        C r = made(S + (int)(g_garbage - 0xA5), Constant<S, A>::OK ? A : -1, -1, ok);
        Dig x, y;
        observe(k, x);
        observe(r, y);
        MC_CHECK(x.h == y.h, CEXPR, "an object that is a constant reads differently from one made at run time");
        if constexpr (requires { k == r; }) MC_CHECK(k == r, CEXPR, "an object that is a constant differs from one made at run time");
        if constexpr (COPYABLE)
            for (int o = 0; o < NOPS; ++o)
            {
                C a(k), b(r);
                Dig da, db;
                const bool oa = apply(a, o, da), ob = apply(b, o, db);
                observe(a, da);
                observe(b, db);
                MC_CHECK(oa == ob && da.h == db.h, CEXPR, "operation ", o, " gives another result on a copy of the constant object");
            }
    });
    if (ev.kind != EV_NONE) fail(CEXPR, cat_str("ended with ", ev_name(ev.kind)));
}
template <int S, int... A>
void constants(std::integer_sequence<int, A...>) { (constant<S, A - 1>(), ...); }

template <int S>
void compare()
{
    static Table rt;
    g_current_op = cat_str("start ", S);
    for (int a = FROM - 1; a < LAST; ++a)
    {
        g_current_op = cat_str("start ", S, ", operation ", a);
        const Event ev = guarded([&] { rt = a < FROM ? table(S + (int)(g_garbage - 0xA5), 0, 0) : table(S + (int)(g_garbage - 0xA5), a, a + 1); });
        if (ev.kind != EV_NONE) { fail(CEXPR, cat_str("ended with ", ev_name(ev.kind), " at run time")); continue; }
        const Table& ct = COMPILED<S>;
        auto same = [&](const Cell& x, const Cell& y, const std::string& what)
        {
            g_transitions += x.count;
            g_states += x.count;
            MC_CHECK(x.dig == y.dig && x.count == y.count, CEXPR, what, ": compile time and run time disagree");
        };
        if (a < FROM) { same(ct.root, rt.root, "construction"); continue; }
        same(ct.one[a], rt.one[a], cat_str("operation ", a));
        if constexpr (DEPTH >= 2)
            for (int b = 0; b < NOPS; ++b) same(ct.two[a][b], rt.two[a][b], cat_str("operations ", a, " then ", b, DEPTH > 2 ? " then others" : ""));
    }
    if constexpr (!std::is_same_v<E, Owner> && FROM == 0) constants<S>(std::make_integer_sequence<int, NOPS + 1>{});
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    compare<0>();
    if constexpr (NSTART > 1) { compare<1>(); compare<2>(); compare<3>(); }
    g_notes["enumerated"] = 1;
    finish(0);
}
