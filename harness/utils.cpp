// Small value utilities, each compared with a direct computation over its whole (small) input space.
#include "mc.hpp"
#include <limits>
#include <string_view>
#include "fixed_containers/comparison_chain.hpp"
#include "fixed_containers/in_out.hpp"
#include "fixed_containers/out.hpp"
#include "fixed_containers/pair.hpp"
#include "fixed_containers/pair_view.hpp"
#include "fixed_containers/string_literal.hpp"
#include "fixed_containers/tuples.hpp"
#include "fixed_containers/type_name.hpp"
#include "fixed_containers/variadic_templates.hpp"
using namespace mc;
namespace fc = fixed_containers;

static void guard(const std::string& what, const std::function<void()>& f)
{
    g_current_op = what;
    const auto san0 = g_san_reports;
    const Event ev = guarded(f);
    ++g_transitions;
    ++g_states;
    if (ev.kind != EV_NONE) fail(MISC | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, MISC | LIFE | CRASH, "memory error / undefined behaviour");
}
// offers operator< only, and counts how it is used
struct OnlyLess
{
    int v;
    friend bool operator<(const OnlyLess& a, const OnlyLess& b) { return a.v < b.v; }
};
template <class T>
static int chain_result(const std::vector<std::pair<int, int>>& w, int kind)
{
    auto run = [&]
    {
        auto c = fc::ComparisonChain::start();
        for (auto& [a, b] : w) c = std::move(c).compare(T{a}, T{b});
        return c;
    };
    switch (kind)
    {
    case 0: return run().is_equal();
    case 1: return run().is_not_equal();
    case 2: return run().is_less();
    case 3: return run().is_less_or_equal();
    case 4: return run().is_greater();
    default: return run().is_greater_or_equal();
    }
}
static void chains()
{
    // every sequence of up to 4 compared pairs of values out of 0..2
    for (int len = 0; len <= 4; ++len)
    {
        long total = 1;
        for (int i = 0; i < len; ++i) total *= 9;
        for (long code = 0; code < total; ++code)
        {
            std::vector<std::pair<int, int>> w;
            std::vector<int> l, r;
            long x = code;
            for (int i = 0; i < len; ++i, x /= 9) { w.emplace_back((int)(x % 3), (int)(x / 3 % 3)); l.push_back(w.back().first); r.push_back(w.back().second); }
            guard("comparison chain", [&]
            {
                const bool want[] = {l == r, l != r, l < r, l <= r, l > r, l >= r};
                for (int k = 0; k < 6; ++k)
                {
                    MC_CHECK(R(chain_result<int>(w, k)) == (int)want[k], MISC, "comparison chain of int, query ", k);
                    MC_CHECK(R(chain_result<OnlyLess>(w, k)) == (int)want[k], MISC, "comparison chain of a type with < only, query ", k);
                }
            });
        }
    }
}
// operands of different types: compared as they are, by `<` in both directions, without conversion to each other or copies
struct Rhs;
struct Lhs
{
    int v;
    explicit Lhs(int x) : v(x) {}
    Lhs(const Lhs&) = delete;
};
struct Rhs
{
    int twice;
    explicit Rhs(int x) : twice(x) {}
    Rhs(const Rhs&) = delete;
    explicit operator Lhs() const { return Lhs(twice / 2); }
};
static bool operator<(const Lhs& a, const Rhs& b) { return 2 * a.v < b.twice; }
static bool operator<(const Rhs& b, const Lhs& a) { return b.twice < 2 * a.v; }
template <class A, class B>
static void mixed(const char* what, const A& a, const B& b)
{
    const int want = a < b ? -1 : b < a ? 1 : 0;
    const int ints[][2] = {{1, 1}, {1, 2}, {2, 1}};
    for (int before = 0; before < 4; ++before)
        for (int after = 0; after < 4; ++after)
            guard(cat_str("comparison chain of ", what, ", ", before, " before, ", after, " after"), [&]
            {
                auto sgn = [](int k) { return k == 1 ? -1 : k == 2 ? 1 : 0; };
                const int total = before < 3 && sgn(before) != 0 ? sgn(before) : want != 0 ? want : after < 3 ? sgn(after) : 0;
                auto run = [&]
                {
                    auto c = fc::ComparisonChain::start();
                    if (before < 3) c = std::move(c).compare(ints[before][0], ints[before][1]);
                    c = std::move(c).compare(a, b);
                    if (after < 3) c = std::move(c).compare(ints[after][0], ints[after][1]);
                    return c;
                };
                MC_CHECK(run().is_equal() == (total == 0) && run().is_not_equal() == (total != 0), MISC, "equality, expected ", total);
                MC_CHECK(run().is_less() == (total < 0) && run().is_less_or_equal() == (total <= 0), MISC, "less, expected ", total);
                MC_CHECK(run().is_greater() == (total > 0) && run().is_greater_or_equal() == (total >= 0), MISC, "greater, expected ", total);
            });
}
static void mixed_chains()
{
    const double ds[] = {-0.5, 0.0, -0.0, 0.5, 1.0, 2.5, 3e9, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    const long long ls[] = {-1, 0, 1, 2, 127, 128, 255, 256, 2147483647ll, 2147483648ll, 4294967296ll, 4294967297ll, -4294967295ll};
    for (double d : ds)
    {
        for (double e : ds) { mixed("double and double", d, e); mixed("float and double", (float)d, e); }
        for (long long l : ls) { mixed("long long and double", l, d); mixed("double and long long", d, l); mixed("int8 and double", (signed char)l, d); mixed("double and bool", d, l != 0); }
    }
    for (long long l : ls)
        for (long long m : ls)
        {
            mixed("int8 and long long", (signed char)l, m);
            mixed("long long and int8", l, (signed char)m);
            mixed("uint8 and int", (unsigned char)l, (int)m);
            mixed("int and long long", (int)l, m);
            mixed("long long and int", l, (int)m);
            mixed("uint and uint64", (unsigned)l, (unsigned long long)m);
            mixed("bool and int", l > 0, (int)m);
        }
    const char* ss[] = {"", "a", "ab", "b", "a much longer string, beyond any small buffer"};
    for (const char* a : ss)
        for (const char* b : ss)
        {
            mixed("string and string", std::string(a), std::string(b));
            mixed("string and C string", std::string(a), b);
            mixed("string and string_view", std::string_view(a), std::string(b));
        }
    for (int i = -3; i <= 3; ++i)
        for (int j = -6; j <= 6; ++j)
        {
            mixed("two unrelated types", Lhs(i), Rhs(j));
            mixed("two unrelated types, swapped", Rhs(j), Lhs(i));
        }
}
struct NoAmp
{
    int v;
    NoAmp* operator&() { return nullptr; }
    const NoAmp* operator&() const { return nullptr; }
    friend bool operator==(const NoAmp& a, const NoAmp& b) { return a.v == b.v; }
};
// Moving from one of these is visible
struct Sly
{
    int v;
    Sly(int x = 0) : v(x) {}
    Sly(const Sly& o) : v(o.v) {}
    Sly(Sly&& o) noexcept : v(o.v) { if (this != &o) o.v = -1; }
    Sly& operator=(const Sly& o) { v = o.v; return *this; }
    Sly& operator=(Sly&& o) noexcept { const int t = o.v; if (this != &o) o.v = -1; v = t; return *this; }
    friend bool operator==(const Sly& a, const Sly& b) { return a.v == b.v; }
};
struct Wraps { Sly s; Wraps(const Sly& x) : s(x) {} Wraps(Sly&& x) : s(std::move(x)) {} };
// Everything a pair view, a Pair or a wrapper converts to: the viewed objects keep their value
static void conversions()
{
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            guard(cat_str("conversions of a pair ", i, ",", j), [&]
            {
                Sly a(i), b(j);
                auto same = [&](const auto& p, const char* what)
                {
                    auto num = [](const auto& x) { if constexpr (requires { x.s; }) return x.s.v; else return x.v; };
                    if constexpr (requires { p.first(); }) MC_CHECK(num(p.first()) == i && num(p.second()) == j, MISC, what);
                    else MC_CHECK(num(p.first) == i && num(p.second) == j, MISC, what);
                    MC_CHECK(a.v == i && b.v == j, MISC, what, ": the viewed objects changed");
                };
                auto all = [&](auto make, const char* n)
                {
                    auto one = [&]<class P>(std::type_identity<P>, const char* w)
                    {
                        auto v = make();
                        const auto k = make();
                        const P p1 = v; same(p1, w);
                        const P p2 = k; same(p2, w);
                        const P p3 = make(); same(p3, w);
                        const P p4 = std::move(v); same(p4, w);
                        P p5(v); same(p5, w);
                        auto p6 = static_cast<P>(v); same(p6, w);
                        std::vector<P> list{v, k}; same(list[0], w); same(list[1], w);
                    };
                    one(std::type_identity<std::pair<Sly, Sly>>{}, "std::pair");
                    one(std::type_identity<std::pair<const Sly, Sly>>{}, "std::pair of const");
                    one(std::type_identity<std::pair<Sly, const Sly>>{}, "std::pair of const second");
                    one(std::type_identity<std::pair<Wraps, Sly>>{}, "std::pair of another type");
                    one(std::type_identity<std::pair<Sly, Wraps>>{}, "std::pair of another second type");
                    one(std::type_identity<std::pair<Wraps, Wraps>>{}, "std::pair of other types");
                    auto v = make();
                    if constexpr (requires { typename std::tuple_size<decltype(v)>::type; })
                    {
                        auto [x, y] = v;
                        MC_CHECK(x.v == i && y.v == j && a.v == i && b.v == j, MISC, n, ": bound by value");
                    }
                    (void)(v == v);
                    auto c1 = v; same(c1, "copy");
                    auto c2 = std::move(v); same(c2, "moved view");
                };
                all([&] { return fc::PairView<Sly, Sly>(&a, &b); }, "PairView");
                all([&] { return fc::PairView<const Sly, Sly>(&a, &b); }, "PairView of const");
                all([&] { return fc::PairView<const Sly, const Sly>(&a, &b); }, "PairView of const, const");
                all([&] { return fc::pair_view_detail::AssignablePairView<const Sly, Sly>(&a, &b); }, "AssignablePairView");
                const fc::Pair<Sly, Sly> r{a, b};
                fc::Pair<Sly, Sly> q{a, b};
                const std::pair<Sly, Sly> s1 = r, s2 = q;
                const std::pair<const Sly, Wraps> s3 = r, s4 = q;
                same(s1, "Pair"); same(s2, "Pair"); same(s3, "Pair"); same(s4, "Pair"); same(r, "Pair itself"); same(q, "Pair itself");
                fc::in_out<Sly> io{a};
                fc::out<Sly> o{b};
                const Sly x = *io, y = *o;
                Sly z = *io;
                MC_CHECK(x.v == i && y.v == j && z.v == i && a.v == i && b.v == j, MISC, "in_out, out: reading");
                z = *o;
                MC_CHECK(z.v == j && b.v == j, MISC, "out: assigning from");
            });
}
template <class T>
static void pairs()
{
    T a[3] = {T{0}, T{1}, T{1}}, b[3] = {T{0}, T{0}, T{1}};
    auto ad = [](const T& x) { return std::addressof(x); };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            guard(cat_str("pair view of entries ", i, ",", j), [&]
            {
                fc::PairView<T, T> p(std::addressof(a[i]), std::addressof(b[j]));
                const auto& cp = p;
                MC_CHECK(ad(p.first()) == ad(a[i]) && ad(p.second()) == ad(b[j]), MISC, "first/second");
                MC_CHECK(ad(cp.first()) == ad(a[i]) && ad(cp.second()) == ad(b[j]), MISC, "first/second const");
                MC_CHECK(ad(p.template get<0>()) == ad(a[i]) && ad(p.template get<1>()) == ad(b[j]) && ad(cp.template get<0>()) == ad(a[i]) && ad(cp.template get<1>()) == ad(b[j]), MISC, "get");
                MC_CHECK(ad(std::get<0>(p)) == ad(a[i]) && ad(std::get<1>(p)) == ad(b[j]) && ad(std::get<0>(cp)) == ad(a[i]) && ad(std::get<1>(cp)) == ad(b[j]), MISC, "std::get");
                auto& [x, y] = p;
                MC_CHECK(ad(x) == ad(a[i]) && ad(y) == ad(b[j]), MISC, "structured binding");
                const std::pair<T, T> q = p;
                MC_CHECK(q.first == a[i] && q.second == b[j], MISC, "conversion to pair");
                const std::pair<T, T> q2 = cp;
                MC_CHECK(q2.first == a[i] && q2.second == b[j], MISC, "conversion of a const view to pair");
                fc::PairView<const T, const T> k = p;
                MC_CHECK(ad(k.first()) == ad(a[i]) && ad(k.second()) == ad(b[j]), MISC, "conversion to a view of const");
                auto copy = p;
                MC_CHECK(ad(copy.first()) == ad(a[i]) && ad(copy.second()) == ad(b[j]), MISC, "copy");
                for (int i2 = 0; i2 < 3; ++i2)
                    for (int j2 = 0; j2 < 3; ++j2)
                    {
                        fc::PairView<T, T> o(std::addressof(a[i2]), std::addressof(b[j2]));
                        MC_CHECK((p == o) == (a[i] == a[i2] && b[j] == b[j2]) && (p != o) == !(a[i] == a[i2] && b[j] == b[j2]), MISC, "equality");
                        copy = o;
                        MC_CHECK(ad(copy.first()) == ad(a[i2]) && ad(copy.second()) == ad(b[j2]) && ad(p.first()) == ad(a[i]), MISC, "assignment rebinds");
                    }
                T keep[6] = {a[0], a[1], a[2], b[0], b[1], b[2]};
                p.first() = T{7};
                p.second() = T{9};
                for (int t = 0; t < 3; ++t) MC_CHECK(a[t].v == (t == i ? 7 : keep[t].v) && b[t].v == (t == j ? 9 : keep[3 + t].v), MISC, "writes go elsewhere");
                for (int t = 0; t < 3; ++t) { a[t] = keep[t]; b[t] = keep[3 + t]; }
                fc::Pair<int, long> r{a[i].v, b[j].v};
                const std::pair<int, long> s1 = r;
                const std::pair<long, int> s2 = r;
                const std::pair<long, long> s3 = std::as_const(r);
                MC_CHECK(s1.first == a[i].v && s1.second == b[j].v && s2.first == a[i].v && s2.second == b[j].v && s3.first == a[i].v && s3.second == b[j].v, MISC, "Pair conversion");
            });
    {
        T v[2] = {T{1}, T{2}};
        for (int i = 0; i < 2; ++i)
            guard("in_out / out", [&]
            {
                fc::in_out<T> p{v[i]};
                fc::out<T> q{v[i]};
                MC_CHECK(std::addressof(*p) == std::addressof(v[i]) && std::addressof(*q) == std::addressof(v[i]), MISC, "*");
                MC_CHECK(&p == std::addressof(v[i]) && &q == std::addressof(v[i]), MISC, "&");
                MC_CHECK(p.operator->() == std::addressof(v[i]) && q.operator->() == std::addressof(v[i]), MISC, "->");
                const int before = v[1 - i].v;
                *p = T{5};
                MC_CHECK(v[i].v == 5 && v[1 - i].v == before, MISC, "in_out write");
                *q = T{6};
                MC_CHECK(v[i].v == 6 && v[1 - i].v == before, MISC, "out write");
                p->v = 8;
                MC_CHECK(v[i].v == 8, MISC, "in_out -> write");
            });
    }
}
struct Plain { int v; friend bool operator==(const Plain&, const Plain&) = default; };
template <std::size_t N>
static void literal(const char (&lit)[N], fc::StringLiteral s)
{
    guard("string literal", [&]
    {
        MC_CHECK(s.size() == N - 1, MISC, "size ", (long)s.size(), " of a literal of ", (long)N - 1);
        MC_CHECK(std::memcmp(s.c_str(), lit, N) == 0, MISC, "characters or terminator");
        MC_CHECK(s.as_view() == std::string_view(lit, N - 1) && std::string_view(s) == std::string_view(lit, N - 1), MISC, "view");
        const char* p = s;
        MC_CHECK(p == s.c_str(), MISC, "conversion");
        const fc::StringLiteral t = s;
        MC_CHECK(t.c_str() == s.c_str() && t.size() == s.size(), MISC, "copy");
    });
}
static void tuples()
{
    auto t0 = std::tuple<>{};
    auto t3 = std::tuple<int, long, char>{1, 2, 3};
    auto t1 = std::tuple<int>{1};
    guard("tuples", [&]
    {
        std::vector<long> seen;
        std::vector<const void*> where;
        fc::tuples::for_each_entry(t0, [&](auto&) { seen.push_back(-1); });
        MC_CHECK(seen.empty(), MISC, "empty tuple");
        fc::tuples::for_each_entry(t1, [&](auto& e) { seen.push_back(e); });
        MC_CHECK(seen == std::vector<long>{1}, MISC, "tuple of one");
        seen.clear();
        fc::tuples::for_each_entry(t3, [&](auto& e) { seen.push_back(e); where.push_back(&e); ++e; });
        MC_CHECK((seen == std::vector<long>{1, 2, 3}), MISC, "order");
        MC_CHECK((where == std::vector<const void*>{&std::get<0>(t3), &std::get<1>(t3), &std::get<2>(t3)}), MISC, "entries are copied");
        MC_CHECK(std::get<0>(t3) == 2 && std::get<1>(t3) == 3 && std::get<2>(t3) == 4, MISC, "writes");
        seen.clear();
        fc::tuples::for_each_entry(t3, [&](std::size_t i, auto& e) { seen.push_back((long)i * 100 + e); });
        MC_CHECK((seen == std::vector<long>{2, 103, 204}), MISC, "indices");
        seen.clear();
        int a = 1; long b = 2; char c = 3;
        fc::variadic_templates::for_each_entry([&](auto& e) { seen.push_back(e); ++e; }, a, b, c);
        MC_CHECK((seen == std::vector<long>{1, 2, 3}) && a == 2 && b == 3 && c == 4, MISC, "variadic order");
        seen.clear();
        fc::variadic_templates::for_each_entry([&](std::size_t i, auto& e) { seen.push_back((long)i * 100 + e); ++e; }, a, b, c);
        MC_CHECK((seen == std::vector<long>{2, 103, 204}) && a == 3 && b == 4 && c == 5, MISC, "variadic indices");
        seen.clear();
        fc::variadic_templates::for_each_entry([&](auto& e) { seen.push_back(e); });
        MC_CHECK(seen.empty(), MISC, "no arguments");
        static_assert(std::is_same_v<fc::variadic_templates::NthElementT<0, int, long, char>, int>);
        static_assert(std::is_same_v<fc::variadic_templates::NthElementT<1, int, long, char>, long>);
        static_assert(std::is_same_v<fc::variadic_templates::NthElementT<2, int, long, char>, char>);
        MC_CHECK(fc::type_name<int>() == "int" && fc::type_name<const char*>() == "const char *" && fc::type_name<unsigned long&>() == "unsigned long &" && fc::type_name<Plain>() == "Plain" && fc::type_name<fc::StringLiteral>() == "fixed_containers::StringLiteral", MISC, "type_name");
    });
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
    chains();
    mixed_chains();
    pairs<Plain>();
    pairs<Sly>();
    conversions();
    pairs<NoAmp>();
#define L(x) literal(x, x)
    L(""); L("a"); L("ab"); L("abcdefgh"); L("with\0nul inside"); L("\0"); L("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
    guard("default string literal", [] { fc::StringLiteral s; MC_CHECK(s.size() == 0 && *s.c_str() == 0 && s.as_view().empty(), MISC, "default"); });
    tuples();
    g_notes["enumerated"] = 1;
    finish(0);
}
