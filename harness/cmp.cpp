// Comparisons of containers that differ in capacity, checking policy, colour compactness, storage, hash or comparator,
// and of a container with itself, on elements whose own comparison is partial (NaN, -0.0), weak or only ==.
// Every ordered pair of contents is compared in every combination of types against std.
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <stack>
#include <queue>
#include <unordered_map>
#include <unordered_set>
using namespace mc;
namespace fc = fixed_containers;
#ifndef MAXN
#define MAXN 3
#endif
template <class B> struct Ck : B {};

struct Weak  // equal up to the low bit
{
    int v;
    friend bool operator==(const Weak& a, const Weak& b) { return a.v / 2 == b.v / 2; }
    friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return a.v / 2 <=> b.v / 2; }
};
struct WeakLess { bool operator()(const Weak& a, const Weak& b) const { return a.v < b.v; } };
struct OnlyEq
{
    int v;
    friend bool operator==(const OnlyEq& a, const OnlyEq& b) { return a.v == b.v; }
};
struct Never  // not even equal to itself
{
    int v;
    friend bool operator==(const Never&, const Never&) { return false; }
};
template <class T> static T val(int i);
template <> double val<double>(int i) { static const double a[] = {std::numeric_limits<double>::quiet_NaN(), 0.0, -0.0, 1.5}; return a[i]; }
template <> Weak val<Weak>(int i) { return Weak{i}; }
template <> OnlyEq val<OnlyEq>(int i) { return OnlyEq{i}; }
template <> Never val<Never>(int i) { return Never{i}; }
template <> int val<int>(int i) { return i * 7 - 7; }
template <> char val<char>(int i) { static const char a[] = {'\0', '\x01', '\x7f', '\x80'}; return a[i]; }
// values whose order (or equality) is not that of their bytes
template <> signed char val<signed char>(int i) { static const signed char a[] = {-128, -1, 0, 127}; return a[i]; }
template <> unsigned char val<unsigned char>(int i) { static const unsigned char a[] = {0, 1, 127, 255}; return a[i]; }
template <> bool val<bool>(int i) { return i & 1; }
template <> std::byte val<std::byte>(int i) { static const std::byte a[] = {std::byte{0}, std::byte{1}, std::byte{128}, std::byte{255}}; return a[i]; }
enum class Signed8 : signed char { A = -100, B = -1, C = 0, D = 100 };
template <> Signed8 val<Signed8>(int i) { static const Signed8 a[] = {Signed8::D, Signed8::B, Signed8::C, Signed8::A}; return a[i]; }
template <> short val<short>(int i) { static const short a[] = {-1, 1, 255, 256}; return a[i]; }
template <> unsigned short val<unsigned short>(int i) { static const unsigned short a[] = {1, 256, 255, 0xff00}; return a[i]; }
template <> unsigned val<unsigned>(int i) { static const unsigned a[] = {0, 0x01000000, 2, 0xffffffffu}; return a[i]; }
template <> long long val<long long>(int i) { static const long long a[] = {std::numeric_limits<long long>::min(), -1, 1LL << 40, 3}; return a[i]; }
template <> unsigned long long val<unsigned long long>(int i) { static const unsigned long long a[] = {~0ULL, 1ULL << 63, 1ULL << 40, 3}; return a[i]; }
template <> float val<float>(int i) { static const float a[] = {-1.0f, 0.0f, -0.0f, 1.5f}; return a[i]; }
template <> long double val<long double>(int i) { static const long double a[] = {-1.0L, 0.0L, -0.0L, std::numeric_limits<long double>::infinity()}; return a[i]; }
struct Padded  // trivially copyable, with bytes that do not take part in its value
{
    signed char a;
    int b;
    bool operator==(const Padded&) const = default;
    auto operator<=>(const Padded&) const = default;
};
static Padded padded(int i)
{
    static unsigned char fill = 0x11;
    alignas(Padded) unsigned char raw[sizeof(Padded)];
    std::memset(raw, fill += 0x35, sizeof raw);  // other padding every time
    static const signed char a[] = {-1, 1, 1, 2};
    static const int b[] = {256, -5, 256, 1};
    std::memcpy(raw + offsetof(Padded, a), &a[i], sizeof a[i]);
    std::memcpy(raw + offsetof(Padded, b), &b[i], sizeof b[i]);
    return std::bit_cast<Padded>(*reinterpret_cast<std::array<unsigned char, sizeof raw>*>(raw));
}
template <> Padded val<Padded>(int i) { return padded(i); }
struct Cached  // trivially copyable, with a member that does not take part in its value
{
    int v;
    int cache;
    friend bool operator==(const Cached& x, const Cached& y) { return x.v == y.v; }
    friend std::strong_ordering operator<=>(const Cached& x, const Cached& y) { return y.v <=> x.v; }
};
template <> Cached val<Cached>(int i) { static int n = 0; return Cached{i * 100 - 150, ++n}; }
constexpr int NV = 4;

static int code(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
template <class A, class B> static bool eq_only(const A& a, const B& b, bool want)
{
    const bool r1 = a == b, r2 = a != b;
    return r1 == want && r2 == !want;
}
template <class A, class B> static std::string check(const A& a, const B& b, bool eq)
{
    if (!eq_only(a, b, eq)) return cat_str("== says ", (int)(a == b), ", != says ", (int)(a != b), ", std says equal: ", (int)eq);
    return "";
}
template <class A, class B> static std::string check(const A& a, const B& b, bool eq, int ord)
{
    if (auto s = check(a, b, eq); !s.empty()) return s;
    const int c = code(a <=> b);
    if (c != ord || (a < b) != (ord == -1) || (a > b) != (ord == 1) || (a <= b) != (ord == -1 || ord == 0) || (a >= b) != (ord == 1 || ord == 0))
        return cat_str("<=> says ", c, ", std says ", ord, "; < ", (int)(a < b), " <= ", (int)(a <= b), " > ", (int)(a > b), " >= ", (int)(a >= b));
    return "";
}
using Content = std::vector<int>;
static std::string show(const Content& c)
{
    std::string s = "[";
    for (int i : c) s += cat_str(i, " ");
    return s + "]";
}
static std::vector<Content> all_contents()
{
    std::vector<Content> r{{}};
    for (std::size_t i = 0; i < r.size(); ++i)
        if (r[i].size() < MAXN)
            for (int v = 0; v < NV; ++v) { Content c = r[i]; c.push_back(v); r.push_back(c); }
    return r;
}
template <class F> static void one(const std::string& what, F&& f)
{
    g_current_op = what;
    const auto san0 = g_san_reports;
    std::string msg;
    const Event ev = guarded([&] { msg = f(); });
    if (ev.kind != EV_NONE) fail(CMP | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    if (!msg.empty()) fail(CMP, msg);
    MC_CHECK(g_san_reports == san0, CMP | LIFE | CRASH, "memory error / undefined behaviour");
    ++g_transitions;
}

// ---- sequences -------------------------------------------------------------------------------------------------
template <class C> static void put(C& c, const Content& x, int turn)
{
    using T = typename C::value_type;
    auto push = [&](T v) { if constexpr (requires { c.push_back(v); }) c.push_back(v); else c.push(v); };
    if constexpr (requires { c.pop_front(); }) for (int i = 0; i < turn; ++i) { push(val<T>(3)); c.pop_front(); }
    else if constexpr (requires { c.front(); c.pop(); }) for (int i = 0; i < turn; ++i) { push(val<T>(3)); c.pop(); }
    else if constexpr (requires { c.pop_back(); }) for (int i = 0; i < turn; ++i) { push(val<T>(3)); c.pop_back(); }
    else for (int i = 0; i < turn; ++i) { push(val<T>(3)); c.pop(); }
    for (int i : x) push(val<T>(i));
}
template <class T, class A, class B> static void seq_pair(const char* name)
{
    static const auto contents = all_contents();
    for (const Content& x : contents)
        for (const Content& y : contents)
        {
            std::conditional_t<std::is_same_v<T, char> && !requires(A& q) { q.pop(); q.push('a'); } && requires(A& q) { q.c_str(); }, std::string, std::vector<T>> mx, my;
            for (int i : x) mx.push_back(val<T>(i));
            for (int i : y) my.push_back(val<T>(i));
            one(cat_str(name, " ", show(x), " with ", show(y)), [&]() -> std::string
            {
                for (int turn : {0, 2})
                {
                    A a{}; B b{};
                    put(a, x, 0); put(b, y, turn);
                    std::string s;
                    if constexpr (std::three_way_comparable<T>)
                    {
                        s = check(a, b, mx == my, code(mx <=> my));
                        if (s.empty()) s = check(b, a, my == mx, code(my <=> mx));
                        if (s.empty() && x == y) s = check(a, a, mx == mx, code(mx <=> mx));
                    }
                    else
                    {
                        s = check(a, b, mx == my);
                        if (s.empty()) s = check(b, a, my == mx);
                        if (s.empty() && x == y) s = check(a, a, mx == mx);
                    }
                    if (!s.empty()) return s;
                }
                return "";
            });
            ++g_states;
        }
}
template <class T, template <class, std::size_t, class> class C> static void seq_kind(const char* name)
{
    using A5 = fc::customize::SequenceContainerAbortChecking<T, 5>;
    using A7 = fc::customize::SequenceContainerAbortChecking<T, 7>;
    seq_pair<T, C<T, 5, A5>, C<T, 5, A5>>(name);
#if PART <= 4
    seq_pair<T, C<T, 5, A5>, C<T, 5, Ck<A5>>>((cat_str(name, " of different policies")).c_str());
#endif
    seq_pair<T, C<T, 5, A5>, C<T, 7, A7>>((cat_str(name, " of different capacities")).c_str());
#if PART <= 4
    seq_pair<T, C<T, 5, Ck<A5>>, C<T, 7, A7>>((cat_str(name, " of different capacities and policies")).c_str());
#endif
}
// long contents that differ in one place (or are a prefix of each other)
template <class T, class A, class B> static void long_pair(const std::string& name)
{
    constexpr int N = 40;
    for (int base = 0; base < NV; ++base)
        for (int n = 0; n <= N; n = n < 12 ? n + 1 : n + (n % 8 == 1 || n % 8 == 0 ? 1 : n % 8 == 7 ? 1 : 7 - n % 8))
            for (int at = 0; at <= n; ++at)
                for (int v = 0; v < NV; ++v)
                {
                    Content x((std::size_t)n, base), y = x;
                    if (at < n) { y[(std::size_t)at] = v; if (at + 1 < n && v != base) x[(std::size_t)n - 1] = v; }  // a later difference must not matter
                    else y.resize((std::size_t)n - std::min<std::size_t>((std::size_t)n, (std::size_t)v));
                    std::conditional_t<std::is_same_v<T, char> && requires(A& q) { q.c_str(); }, std::string, std::vector<T>> mx, my;
                    for (int i : x) mx.push_back(val<T>(i));
                    for (int i : y) my.push_back(val<T>(i));
                    one(cat_str(name, " ", show(x), " with ", show(y)), [&]() -> std::string
                    {
                        A a{}; B b{};
                        put(a, x, at % 5); put(b, y, 38 + v);
                        std::string s;
                        if constexpr (std::three_way_comparable<T>)
                        {
                            s = check(a, b, mx == my, code(mx <=> my));
                            if (s.empty()) s = check(b, a, my == mx, code(my <=> mx));
                        }
                        else
                        {
                            s = check(a, b, mx == my);
                            if (s.empty()) s = check(b, a, my == mx);
                        }
                        return s;
                    });
                    ++g_states;
                }
}
template <class T, template <class, std::size_t, class> class C> static void long_kind(const char* name)
{
    using A40 = fc::customize::SequenceContainerAbortChecking<T, 40>;
    using A64 = fc::customize::SequenceContainerAbortChecking<T, 64>;
    long_pair<T, C<T, 40, A40>, C<T, 40, A40>>(cat_str(name, " long"));
    long_pair<T, C<T, 40, A40>, C<T, 64, A64>>(cat_str(name, " long, of different capacities"));
}
template <class T> static void seqs(const char* t)
{
    long_kind<T, fc::FixedVector>(cat_str("FixedVector<", t, ">").c_str());
    long_kind<T, fc::FixedDeque>(cat_str("FixedDeque<", t, ">").c_str());
    long_kind<T, fc::FixedCircularDeque>(cat_str("FixedCircularDeque<", t, ">").c_str());
    long_kind<T, fc::FixedList>(cat_str("FixedList<", t, ">").c_str());
    long_kind<T, fc::FixedStack>(cat_str("FixedStack<", t, ">").c_str());
    long_kind<T, fc::FixedQueue>(cat_str("FixedQueue<", t, ">").c_str());
    seq_kind<T, fc::FixedVector>(cat_str("FixedVector<", t, ">").c_str());
    seq_kind<T, fc::FixedDeque>(cat_str("FixedDeque<", t, ">").c_str());
    seq_kind<T, fc::FixedCircularDeque>(cat_str("FixedCircularDeque<", t, ">").c_str());
    seq_kind<T, fc::FixedList>(cat_str("FixedList<", t, ">").c_str());
    seq_kind<T, fc::FixedStack>(cat_str("FixedStack<", t, ">").c_str());
    seq_kind<T, fc::FixedQueue>(cat_str("FixedQueue<", t, ">").c_str());
    seq_kind<T, fc::FixedCircularQueue>(cat_str("FixedCircularQueue<", t, ">").c_str());
}
template <class T, std::size_t N, class Chk> using Str = fc::FixedString<N, Chk>;

// ---- associative -----------------------------------------------------------------------------------------------
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
constexpr auto EMB = RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR;
constexpr auto DED = RedBlackTreeNodeColorCompactness::DEDICATED_COLOR;
struct H0 { std::uint64_t operator()(int) const { return 0; } };
struct H1 { std::uint64_t operator()(int x) const { return (std::uint64_t)x << 40; } };
using Slots = std::array<int, 3>;  // value index of each key, or NV: absent
static std::vector<Slots> all_slots()
{
    std::vector<Slots> r;
    for (int a = 0; a <= NV; ++a) for (int b = 0; b <= NV; ++b) for (int c = 0; c <= NV; ++c) r.push_back({a, b, c});
    return r;
}
static std::string show(const Slots& s) { return cat_str("{", s[0], " ", s[1], " ", s[2], "}"); }
template <class C, class KeyF> static void fill(C& c, const Slots& s, bool back, KeyF key)
{
    using V = typename C::mapped_type;
    for (int i = 0; i < 3; ++i)
    {
        const int k = back ? 2 - i : i;
        if (s[(std::size_t)k] < NV) c.try_emplace(key(k), val<V>(s[(std::size_t)k]));
        else if (back) { c.try_emplace(key(k), val<V>(1)); c.erase(key(k)); }
    }
}
template <class A, class B, class M, class KeyF> static void map_pair(const std::string& name, KeyF key, bool model = true)
{
    static const auto slots = all_slots();
    for (const Slots& x : slots)
        for (const Slots& y : slots)
        {
            one(cat_str(name, " ", show(x), " with ", show(y)), [&]() -> std::string
            {
                M mx, my;
                fill(mx, x, false, key); fill(my, y, false, key);
                for (bool back : {false, true})
                {
                    A a{}; B b{};
                    fill(a, x, false, key); fill(b, y, back, key);
                    const bool want = model ? mx == my : (a == b);
                    std::string s = check(a, b, want);
                    if (s.empty()) s = check(b, a, want);
                    if (s.empty() && x == y) s = check(a, a, mx == mx);
                    if (!s.empty()) return s;
                }
                return "";
            });
            ++g_states;
        }
}
template <class V> static void maps(const char* t)
{
    auto ik = [](int i) { return i * 10 - 10; };
    using M = std::map<int, V>;
    using Chk = fc::customize::MapAbortChecking<int, V, 3>;
    using D = fc::FixedMap<int, V, 3>;
    const std::string n = cat_str("FixedMap<int,", t, ">");
    map_pair<D, D, M>(n, ik);
    map_pair<D, fc::FixedMap<int, V, 3, std::less<int>, DED>, M>(n + " colours", ik);
    map_pair<D, fc::FixedMap<int, V, 3, std::less<int>, EMB, fc::FixedIndexBasedContiguousStorage>, M>(n + " storages", ik);
    map_pair<D, fc::FixedMap<int, V, 3, std::less<int>, EMB, fc::FixedIndexBasedPoolStorage, Ck<Chk>>, M>(n + " policies", ik);
    map_pair<D, fc::FixedMap<int, V, 6, std::less<>, DED, fc::FixedIndexBasedContiguousStorage>, M>(n + " capacities", ik);
    map_pair<D, fc::FixedMap<int, V, 3, std::greater<int>>, M>(n + " orders", ik, false);
    using U = std::unordered_map<int, V>;
    using W = fc::FixedUnorderedMap<int, V, 3>;
    const std::string u = cat_str("FixedUnorderedMap<int,", t, ">");
    map_pair<W, W, U>(u, ik);
    map_pair<W, fc::FixedUnorderedMap<int, V, 3, H0>, U>(u + " hashes", ik);
    map_pair<W, fc::FixedUnorderedMap<int, V, 3, H1, std::equal_to<int>, 64, Ck<Chk>>, U>(u + " policies", ik);
    map_pair<fc::FixedUnorderedMap<int, V, 3, H0>, fc::FixedUnorderedMap<int, V, 9>, U>(u + " capacities", ik);
    using E = en::Gaps;
    auto ek = [](int i) { static const E a[] = {E::BIG, E::MINUS, E::SEVEN}; return a[i]; };
    using EM = fc::EnumMap<E, V>;
    map_pair<EM, EM, std::map<E, V>>(cat_str("EnumMap<E,", t, ">"), ek);
    map_pair<EM, fc::EnumMap<E, V, Ck<fc::customize::EnumMapAbortChecking<E, V>>>, std::map<E, V>>(cat_str("EnumMap<E,", t, "> policies"), ek);
}
template <class A, class B, class M, class T> static void set_pair(const std::string& name, bool ordered = true, bool model = true)
{
    for (int x = 0; x < 16; ++x)
        for (int y = 0; y < 16; ++y)
        {
            one(cat_str(name, " subset ", x, " with subset ", y), [&]() -> std::string
            {
                M mx, my;
                for (int i = 0; i < 4; ++i) { if (x >> i & 1) mx.insert(val<T>(i)); if (y >> i & 1) my.insert(val<T>(i)); }
                for (bool back : {false, true})
                {
                    A a{}; B b{};
                    for (int i = 0; i < 4; ++i)
                    {
                        const int j = back ? 3 - i : i;
                        if (x >> i & 1) a.insert(val<T>(i));
                        if (y >> j & 1) b.insert(val<T>(j));
                        else if (back) { b.insert(val<T>(j)); b.erase(val<T>(j)); }
                    }
                    std::string s;
                    if constexpr (requires { mx <=> my; })
                    {
                        if (ordered && model)
                        {
                            s = check(a, b, mx == my, code(mx <=> my));
                            if (s.empty()) s = check(b, a, my == mx, code(my <=> mx));
                            if (s.empty() && x == y) s = check(a, a, true, 0);
                        }
                    }
                    const bool want = model ? mx == my : (a == b);
                    if (s.empty()) s = check(a, b, want);
                    if (s.empty()) s = check(b, a, want);
                    if (s.empty() && x == y) s = check(a, a, mx == mx);
                    if (!s.empty()) return s;
                }
                return "";
            });
            ++g_states;
        }
}
template <class T, class L> static void osets(const char* t)
{
    using M = std::set<T, L>;
    using Chk = fc::customize::SetAbortChecking<T, 4>;
    using D = fc::FixedSet<T, 4, L>;
    const std::string n = cat_str("FixedSet<", t, ">");
    set_pair<D, D, M, T>(n);
    set_pair<D, fc::FixedSet<T, 4, L, DED>, M, T>(n + " colours");
    set_pair<D, fc::FixedSet<T, 4, L, EMB, fc::FixedIndexBasedContiguousStorage>, M, T>(n + " storages");
    set_pair<D, fc::FixedSet<T, 4, L, EMB, fc::FixedIndexBasedPoolStorage, Ck<Chk>>, M, T>(n + " policies");
    set_pair<D, fc::FixedSet<T, 9, L, DED, fc::FixedIndexBasedContiguousStorage>, M, T>(n + " capacities");
}
// EnumArray: all contents of both operands
template <class V> static void earr(const char* t)
{
    using E = en::Gaps;
    using A = fc::EnumArray<E, V>;
    auto make = [](int code_, std::array<V, 4>& m)
    {
        A a{};
        int i = 0;
        for (E e : a.labels()) { m[(std::size_t)i] = val<V>(code_ % NV); a[e] = m[(std::size_t)i]; code_ /= NV; ++i; }
        return a;
    };
    for (int x = 0; x < 256; ++x)
        for (int y = 0; y < 256; ++y)
        {
            one(cat_str("EnumArray<E,", t, "> ", x, " with ", y), [&]() -> std::string
            {
                std::array<V, 4> mx{}, my{};
                const A a = make(x, mx), b = make(y, my);
                if constexpr (std::three_way_comparable<V>)
                {
                    std::string s = check(a, b, mx == my, code(mx <=> my));
                    if (s.empty() && x == y) s = check(a, a, mx == mx, code(mx <=> mx));
                    return s;
                }
                else
                {
                    std::string s = check(a, b, mx == my);
                    if (s.empty() && x == y) s = check(a, a, mx == mx);
                    return s;
                }
            });
            ++g_states;
        }
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if PART == 0
    seqs<double>("double");
    seq_kind<char, Str>("FixedString");
    long_kind<char, Str>("FixedString");
#elif PART == 1
    seqs<Weak>("weakly ordered");
#elif PART == 2
    seqs<OnlyEq>("only ==");
    seqs<Never>("never equal");
#elif PART == 5
    seqs<signed char>("signed char");
    seqs<unsigned char>("unsigned char");
    seqs<char>("char");
#elif PART == 8
    seqs<bool>("bool");
    seqs<std::byte>("std::byte");
    seqs<Signed8>("enum : signed char");
    earr<signed char>("signed char");
    earr<bool>("bool");
    osets<signed char, std::less<signed char>>("signed char");
    osets<Signed8, std::less<Signed8>>("enum : signed char");
    maps<signed char>("signed char");
#elif PART == 6
    seqs<short>("short");
    seqs<unsigned short>("unsigned short");
    seqs<unsigned>("unsigned");
#elif PART == 9
    seqs<long long>("long long");
    seqs<unsigned long long>("unsigned long long");
    earr<unsigned>("unsigned");
    osets<unsigned long long, std::less<>>("unsigned long long");
    osets<long long, std::less<>>("long long");
    maps<unsigned>("unsigned");
#elif PART == 7
    seqs<Padded>("padded");
    seqs<Cached>("cached");
#elif PART == 10
    seqs<float>("float");
    seqs<long double>("long double");
    earr<float>("float");
    maps<float>("float");
#elif PART == 11
    earr<Padded>("padded");
    earr<Cached>("cached");
    osets<Padded, std::less<>>("padded");
    osets<Cached, std::less<>>("cached");
    maps<Padded>("padded");
    maps<Cached>("cached");
#elif PART == 3
    maps<double>("double");
    maps<Weak>("weakly ordered");
#else
    maps<Never>("never equal");
    osets<int, std::less<int>>("int");
    osets<int, std::greater<>>("int, greater");
    osets<char, std::less<char>>("char");
    osets<Weak, WeakLess>("weakly ordered");
    set_pair<fc::FixedSet<int, 4>, fc::FixedSet<int, 4, std::greater<int>>, std::set<int>, int>("FixedSet<int> orders", true, false);
    {
        using U = std::unordered_set<int>;
        using W = fc::FixedUnorderedSet<int, 4>;
        set_pair<W, W, U, int>("FixedUnorderedSet");
        set_pair<W, fc::FixedUnorderedSet<int, 4, H0>, U, int>("FixedUnorderedSet hashes");
        set_pair<W, fc::FixedUnorderedSet<int, 4, H1, std::equal_to<int>, 64, Ck<fc::customize::SetAbortChecking<int, 4>>>, U, int>("FixedUnorderedSet policies");
        set_pair<fc::FixedUnorderedSet<int, 4, H0>, fc::FixedUnorderedSet<int, 9>, U, int>("FixedUnorderedSet capacities");
    }
    earr<double>("double");
    earr<Weak>("weakly ordered");
    earr<Never>("never equal");
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
