// Integer ranges, their iterators, circular index arithmetic and integer helpers: exhaustive over small
// ranges/positions/steps, all operand pairs of the 8-bit types and all pairs of boundary values of the others.
#include "mc.hpp"
#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/filtered_integer_range_iterator.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
#include "fixed_containers/integer_range_iterator.hpp"
using namespace mc;
namespace fc = fixed_containers;
using fc::IteratorDirection;
using i128 = __int128;
static std::string s128(i128 v)
{
    if (v == 0) return "0";
    const bool neg = v < 0;
    std::string o;
    while (v != 0) { int d = (int)(v % 10); o = (char)('0' + (d < 0 ? -d : d)) + o; v /= 10; }
    return (neg ? "-" : "") + o;
}
template <class F>
void item(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const auto al0 = g_allocs;
    const Event ev = guarded([&] { f(); });
    if (ev.kind != EV_NONE) fail(MISC | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, MISC | LIFE | CRASH, "undefined behaviour reported by the sanitizer");
    (void)al0;
}
#define CK(c, ...) MC_CHECK(c, MISC, __VA_ARGS__)

// ---------------------------------------------------------------- integer helpers
template <class U, class V>
void cast_check(const fc::int_math::UnsignedIntegralAndSign<U>& r, i128 exact, const char* what)
{
    if (exact >= (i128)std::numeric_limits<V>::min() && exact <= (i128)std::numeric_limits<V>::max())
        CK((i128)r.template cast<V>() == exact, what, " cast to a ", (long)sizeof(V), "-byte ", std::is_signed_v<V> ? "signed" : "unsigned", " type is ", s128((i128)r.template cast<V>()), " expected ", s128(exact));
}
template <class U>
void sign_check(const fc::int_math::UnsignedIntegralAndSign<U>& r, i128 exact, const char* what)
{
    CK(r.is_negative() == (exact < 0) && r.is_non_negative() == (exact >= 0), what, " sign, expected ", s128(exact));
    CK((i128)r.unsigned_value() == (exact < 0 ? -exact : exact), what, " magnitude ", s128((i128)r.unsigned_value()), " expected ", s128(exact));
    cast_check<U, std::int8_t>(r, exact, what);
    cast_check<U, std::int16_t>(r, exact, what);
    cast_check<U, std::int32_t>(r, exact, what);
    cast_check<U, std::int64_t>(r, exact, what);
    if (exact >= 0)
    {
        cast_check<U, std::uint8_t>(r, exact, what);
        cast_check<U, std::uint16_t>(r, exact, what);
        cast_check<U, std::uint32_t>(r, exact, what);
        cast_check<U, std::uint64_t>(r, exact, what);
    }
}
template <class T>
std::vector<T> values()
{
    std::vector<T> v;
    if constexpr (sizeof(T) == 1)
        for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) v.push_back((T)i);
    else
    {
        auto add = [&](i128 x) { if (x >= (i128)std::numeric_limits<T>::min() && x <= (i128)std::numeric_limits<T>::max() && std::find(v.begin(), v.end(), (T)x) == v.end()) v.push_back((T)x); };
        for (int d = -20; d <= 20; ++d)
        {
            add(d);
            for (int b : {7, 8, 15, 16, 31, 32, 62, 63, 64}) { add(((i128)1 << b) + d / 4); add(-((i128)1 << b) + d / 4); }
        }
    }
    return v;
}
template <class U>
void int_math_for()
{
    using S = std::make_signed_t<U>;
    const auto us = values<U>();
    const auto ss = values<S>();
    for (U a : us)
        for (U b : us)
            item(cat_str("safe_subtract(", s128(a), ", ", s128(b), ") of ", (long)sizeof(U), " bytes"), [&] { sign_check<U>(fc::int_math::safe_subtract(a, b), (i128)a - (i128)b, "safe_subtract"); });
    for (U a : us)
        for (S b : ss)
        {
            const i128 exact = (i128)a + (i128)b;
            if (exact > (i128)std::numeric_limits<U>::max()) continue;  // magnitude not representable
            item(cat_str("safe_add(", s128(a), ", ", s128(b), ") of ", (long)sizeof(U), " bytes"), [&] { sign_check<U>(fc::int_math::safe_add(a, b), exact, "safe_add"); });
        }
    auto divs = [&]<class T>(const std::vector<T>& v)
    {
        for (T a : v)
            for (T b : v)
            {
                if (b == 0) continue;
                i128 q = (i128)a / (i128)b;
                if (q * (i128)b != (i128)a && ((a < 0) == (b < 0))) ++q;
                if (q > (i128)std::numeric_limits<T>::max()) continue;
                item(cat_str("divide_integers_rounding_up(", s128(a), ", ", s128(b), ")"), [&] { const T r = fc::int_math::divide_integers_rounding_up(a, b); CK((i128)r == q, "is ", s128(r), " expected ", s128(q)); });
            }
    };
    divs(us);
    divs(ss);
    for (U a : us)
    {
        item("create_positive/create_negative", [&]
        {
            sign_check<U>(fc::int_math::UnsignedIntegralAndSign<U>::create_positive(a), (i128)a, "create_positive");
            sign_check<U>(fc::int_math::UnsignedIntegralAndSign<U>::create_negative(a), -(i128)a, "create_negative");
        });
    }
    item("default", [&] { sign_check<U>(fc::int_math::UnsignedIntegralAndSign<U>{}, 0, "default"); });
}

// ---------------------------------------------------------------- ranges
constexpr std::size_t BIG = std::numeric_limits<std::size_t>::max();
template <class RG>
void range_obj(const RG& r, std::size_t s, std::size_t e)
{
    item(cat_str("range [", s128(s), ",", s128(e), ")"), [&]
    {
        CK(r.start_inclusive() == s && r.end_exclusive() == e && r.distance() == e - s, "bounds");
        for (std::size_t d = 0; d < 4; ++d)
            for (std::size_t x : {s - d, s + d, e - d, e + d, d, BIG - d}) CK(r.contains(x) == (s <= x && x < e), "contains(", s128(x), ")");
        CK(r == r, "==");
    });
}
// Iterators over positions 0..n whose value at position p is at(p). make(p) yields the iterator at p.
template <class It, class Make, class At>
void random_access_laws(const std::string& name, long n, bool clamps, Make&& make, At&& at)
{
    for (long p = 0; p <= n; ++p)
        item(cat_str(name, " position ", p), [&]
        {
            const It a = make(p);
            if (p < n)
            {
                CK(*a == at(p), "dereference gives ", s128(*a), " expected ", s128(at(p)));
                CK(*(a.operator->().operator->()) == at(p), "operator->");
                It x = a;
                CK(&++x != nullptr && x == make(p + 1), "++");
                It y = a;
                It old = y++;
                CK(old == a && y == make(p + 1), "post ++");
            }
            if (p > 0)
            {
                It x = a;
                --x;
                CK(x == make(p - 1), "--");
                It y = a;
                It old = y--;
                CK(old == a && y == make(p - 1), "post --");
            }
            for (long q = 0; q <= n; ++q)
            {
                const It b = make(q);
                const long d = q - p;
                CK(b - a == d, "difference of positions ", q, " and ", p, " is ", (long)(b - a));
                CK((a == b) == (p == q) && (a != b) == (p != q), "equality of positions ", p, " and ", q);
                CK((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "ordering of positions ", p, " and ", q);
                CK((a <=> b) == (p <=> q), "<=> of positions ", p, " and ", q);
                if (p == n && d != 0 && d > 0) continue;
                CK(a + d == b, "+ ", d);
                CK(d + a == b, d, " + it");
                CK(a - (-d) == b, "- ", -d);
                It x = a;
                x += d;
                CK(x == b, "+= ", d);
                It y = a;
                y -= -d;
                CK(y == b, "-= ", -d);
                if (q < n) CK(a[d] == at(q), "[", d, "]");
            }
            if (clamps && p < n)
                for (long over = 1; over <= 4; ++over)
                {
                    CK(a + (n - p + over) == make(n), "moving ", over, " past the end must stop at the end");
                    It z = a;
                    z += n - p + over;
                    CK(z == make(n) && z - a == n - p, "+= past the end");
                }
            if (clamps && p < n)
                CK(a + std::numeric_limits<std::ptrdiff_t>::max() == make(n), "the longest step must stop at the end");
        });
}
template <class RG>
void integer_range(const RG& r, std::size_t s, std::size_t e)
{
    range_obj(r, s, e);
    const long n = (long)(e - s);
    using F = fc::IntegerRangeIterator<IteratorDirection::FORWARD, RG>;
    using B = fc::IntegerRangeIterator<IteratorDirection::REVERSE, RG>;
    auto mkf = [&](long p) { return F(r, s + (std::size_t)p); };
    auto mkr = [&](long p) { return B(r, e - (std::size_t)p); };
    random_access_laws<F>(cat_str("integer range [", s128(s), ",", s128(e), ") forward"), n, true, mkf, [&](long p) { return s + (std::size_t)p; });
    random_access_laws<B>(cat_str("integer range [", s128(s), ",", s128(e), ") reverse"), n, true, mkr, [&](long p) { return e - 1 - (std::size_t)p; });
    for (long p = 0; p <= n; ++p)
        item("reverse base", [&] { CK(mkr(p).base() == mkf(n - p), "base() of reverse position ", p); });
}
template <class RG>
void circular(const RG& r, std::size_t s, std::size_t e)
{
    const std::size_t len = e - s;
    std::vector<std::size_t> steps;
    for (std::size_t k = 0; k <= 3 * len + 2; ++k) steps.push_back(k);
    for (std::size_t k : {std::size_t{1} << 16, std::size_t{1} << 31, (std::size_t{1} << 32) + 1, (std::size_t{1} << 62) - 1})
        for (std::size_t d = 0; d < 3; ++d) steps.push_back(k + d);
    for (std::size_t i = s; i < e; ++i)
        for (std::size_t k : steps)
            item(cat_str("circular range [", s128(s), ",", s128(e), ") index ", s128(i), " by ", s128(k)), [&]
            {
                if ((i128)i + (i128)k <= (i128)BIG)
                {
                    const auto a = fc::circular_indexing::increment_index_with_wraparound(r, i, k);
                    const i128 u = (i128)(i - s) + (i128)k;
                    CK(a.integer == s + (std::size_t)(u % (i128)len), "increment: index ", s128(a.integer));
                    CK((i128)a.cycles == u / (i128)len, "increment: cycles ", s128(a.cycles));
                }
                const i128 w = (i128)(i - s) - (i128)k;
                i128 fq = w / (i128)len, fm = w % (i128)len;
                if (fm < 0) { fm += (i128)len; --fq; }
                if ((i128)i + (i128)len <= (i128)BIG)
                {
                    const auto b = fc::circular_indexing::decrement_index_with_wraparound(r, i, k);
                    CK(b.integer == s + (std::size_t)fm, "decrement: index ", s128(b.integer), " expected ", s128((i128)s + fm));
                    CK((i128)b.cycles == fq, "decrement: cycles ", s128(b.cycles), " expected ", s128(fq));
                }
            });
    if (e > BIG - 4 * len) return;
    using F = fc::CircularIntegerRangeIterator<IteratorDirection::FORWARD, RG>;
    using B = fc::CircularIntegerRangeIterator<IteratorDirection::REVERSE, RG>;
    const long n = 2 * (long)len + 1;
    for (std::size_t st = s; st < e; ++st)
    {
        auto mkf = [&](long p) { return F(r, fc::StartingIntegerAndDistance{st, (std::size_t)p}); };
        auto mkr = [&](long p) { return B(r, fc::StartingIntegerAndDistance{st, (std::size_t)(n - p)}); };
        auto at = [&](long p) { return s + (st - s + (std::size_t)p) % len; };
        random_access_laws<F>(cat_str("circular [", s128(s), ",", s128(e), ") from ", s128(st)), n, false, mkf, at);
        random_access_laws<B>(cat_str("circular reverse [", s128(s), ",", s128(e), ") from ", s128(st)), n, false, mkr, [&](long p) { return at(n - 1 - p); });
        for (long p = 0; p <= n; ++p)
            item("circular reverse base", [&] { CK(mkr(p).base() == mkf(n - p), "base() of reverse position ", p); });
        item("to_range", [&]
        {
            const auto t = fc::StartingIntegerAndDistance{st, len}.to_range();
            CK(t.start_inclusive() == st && t.end_exclusive() == st + len, "to_range()");
        });
    }
}
// Positions that are far from each other: between any two of them, every way of stepping and every comparison.
template <class It, class Make, class At>
void far_laws(const std::string& name, const std::vector<long>& pos, long lo, long hi, Make&& make, At&& at)
{
    for (long p : pos)
        for (long q : pos)
            item(cat_str(name, " positions ", p, " and ", q), [&]
            {
                const It a = make(p), b = make(q);
                const long d = q - p;
                CK(b - a == d, "difference is ", (long)(b - a));
                CK((a == b) == (p == q) && (a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "comparison");
                CK(a + d == b && d + a == b && a - (-d) == b, "+ ", d);
                It x = a;
                x += d;
                CK(x == b && x - a == d, "+= ", d);
                It y = b;
                y -= d;
                CK(y == a, "-= ", d);
                if (q < hi) { CK(*x == at(q), "dereference gives ", s128(*x), " expected ", s128(at(q))); CK(a[d] == at(q), "[", d, "]"); }
                if (q < hi) { ++x; CK(x - a == d + 1 && x == make(q + 1), "++ at ", q); --x; CK(x == b, "-- at ", q + 1); }
                if (q > lo) { --x; CK(x - a == d - 1 && *x == at(q - 1) && x != b, "-- at ", q); }
            });
}
static std::size_t pmod(i128 v, std::size_t m) { const i128 r = v % (i128)m; return (std::size_t)(r < 0 ? r + (i128)m : r); }
void far()
{
    const long far_steps[] = {0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, (1l << 31) - 1, 1l << 31, (1l << 31) + 1, (1l << 32) - 1, 1l << 32, (1l << 32) + 1, (1l << 33) + 5, 1l << 40, 1l << 60};
    // integer ranges much longer than those enumerated position by position
    for (std::size_t s : {std::size_t{0}, std::size_t{3}, std::size_t{1} << 31, std::size_t{1} << 33})
        for (std::size_t len : {std::size_t{255}, std::size_t{256}, std::size_t{65536}, (std::size_t{1} << 31), (std::size_t{1} << 32) + 3, std::size_t{1} << 62})
        {
            const auto r = fc::IntegerRange::closed_open(s, s + len);
            range_obj(r, s, s + len);
            std::vector<long> pos;
            for (long f : far_steps) { if (f <= (long)len) { pos.push_back(f); pos.push_back((long)len - f); } }
            std::sort(pos.begin(), pos.end());
            pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
            using F = fc::IntegerRangeIterator<IteratorDirection::FORWARD>;
            using B = fc::IntegerRangeIterator<IteratorDirection::REVERSE>;
            far_laws<F>(cat_str("integer range [", s128(s), ",", s128(s + len), ") forward,"), pos, 0, (long)len, [&](long p) { return F(r, s + (std::size_t)p); }, [&](long p) { return s + (std::size_t)p; });
            far_laws<B>(cat_str("integer range [", s128(s), ",", s128(s + len), ") reverse,"), pos, 0, (long)len, [&](long p) { return B(r, s + len - (std::size_t)p); }, [&](long p) { return s + len - 1 - (std::size_t)p; });
        }
    // circular iterators far around, in both directions from where they start
    for (std::size_t s : {std::size_t{0}, std::size_t{3}, std::size_t{1} << 32})
        for (std::size_t len : {std::size_t{1}, std::size_t{2}, std::size_t{3}, std::size_t{7}, std::size_t{256}, std::size_t{1} << 32, (std::size_t{1} << 40) + 1})
            for (std::size_t st : {s, s + len / 2, s + len - 1})
            {
                const auto r = fc::IntegerRange::closed_open(s, s + len);
                std::vector<long> pos;
                for (long f : far_steps) { pos.push_back(f); if (f) pos.push_back(-f); }
                using F = fc::CircularIntegerRangeIterator<IteratorDirection::FORWARD>;
                using B = fc::CircularIntegerRangeIterator<IteratorDirection::REVERSE>;
                const F f0(r, fc::StartingIntegerAndDistance{st, 0});
                const B b0(r, fc::StartingIntegerAndDistance{st, 0});
                auto at = [&](long p) { return s + pmod((i128)(st - s) + p, len); };
                auto mk = [&](auto& z, long p) { auto x = z; x += p; return x; };
                const long lim = std::numeric_limits<long>::max();
                far_laws<F>(cat_str("circular [", s128(s), ",", s128(s + len), ") from ", s128(st)), pos, -lim, lim, [&](long p) { return mk(f0, p); }, at);
                far_laws<B>(cat_str("circular reverse [", s128(s), ",", s128(s + len), ") from ", s128(st)), pos, -lim, lim, [&](long p) { return mk(b0, p); }, [&](long p) { return at(-p - 1); });
                for (long p : pos)
                    if (p >= 0) item("circular, constructed far from its start", [&] { CK(F(r, fc::StartingIntegerAndDistance{st, (std::size_t)p}) == mk(f0, p), "constructed at distance ", p); });
            }
}
struct Pred
{
    unsigned mask = 0;
    std::size_t base = 0;
    constexpr bool operator()(std::size_t i) const { return ((mask >> (i - base)) & 1u) != 0; }
    bool operator==(const Pred&) const = default;
};
void filtered(std::size_t s, std::size_t len)
{
    const std::size_t e = s + len;
    const auto r = fc::IntegerRange::closed_open(s, e);
    using F = fc::FilteredIntegerRangeIterator<Pred, IteratorDirection::FORWARD>;
    using B = fc::FilteredIntegerRangeIterator<Pred, IteratorDirection::REVERSE>;
    for (unsigned m = 0; m < (1u << len); ++m)
    {
        const Pred pr{m, s};
        std::vector<std::size_t> want;
        for (std::size_t i = s; i < e; ++i) if (pr(i)) want.push_back(i);
        const long n = (long)want.size();
        item(cat_str("filtered [", s128(s), ",", s128(e), ") mask ", (long)m), [&]
        {
            const F b(r, s, pr), end(r, e, pr);
            std::vector<F> fs;
            F x = b;
            for (long p = 0; p < n; ++p)
            {
                CK(x != end, "ends early");
                CK(*x == want[(std::size_t)p], "forward element ", p, " is ", s128(*x));
                fs.push_back(x);
                if (p % 2) ++x; else x++;
            }
            CK(x == end, "forward iteration does not stop at the end");
            fs.push_back(x);
            for (long p = n; p > 0; --p)
            {
                if (p % 2) --x; else x--;
                CK(x == fs[(std::size_t)p - 1] && *x == want[(std::size_t)p - 1], "backward to element ", p - 1);
            }
            CK(x == b, "backward iteration does not return to begin");
            // starting anywhere: the next accepted one
            for (std::size_t i = s; i <= e; ++i)
            {
                const F y(r, i, pr);
                const long p = std::lower_bound(want.begin(), want.end(), i) - want.begin();
                CK(y == fs[(std::size_t)p], "constructed at ", s128(i));
            }
            for (std::size_t p = 0; p < fs.size(); ++p)
                for (std::size_t q = 0; q < fs.size(); ++q) CK((fs[p] == fs[q]) == (p == q), "equality");
            B rx(r, e, pr);
            const B rend(r, s, pr);
            // rend is one before the first accepted one, however it is reached
            for (long p = n; p > 0; --p)
            {
                CK(*rx == want[(std::size_t)p - 1], "reverse element ", p - 1, " is ", s128(*rx));
                CK(rx.base() == fs[(std::size_t)p], "reverse base at ", p);
                if (p % 2) ++rx; else rx++;
            }
            if (n == 0 || want[0] == s) CK(rx == rend, "reverse iteration does not stop at the end");
            CK(rx.base() == fs[0], "base() of rend");
            for (long p = 0; p < n; ++p)
            {
                --rx;
                CK(*rx == want[(std::size_t)p], "backwards on reverse, element ", p);
            }
        });
    }
}
template <std::size_t S, std::size_t L>
void compile_time()
{
    const auto r = fc::IntegerRange::closed_open<S, S + L>();
    integer_range(r, S, S + L);
    if constexpr (L > 0) circular(r, S, S + L);
    if constexpr (L > 0)
        item("compile-time range comparison", [&] { CK(!(r == fc::IntegerRange::closed_open<S, S + L - 1>()) && !(r == fc::IntegerRange::closed_open<S + 1, S + L>()), "different ranges compare equal"); });
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
#ifndef MAXLEN
#define MAXLEN 7
#endif
    int_math_for<std::uint8_t>();
    int_math_for<std::uint16_t>();
    int_math_for<std::uint32_t>();
    int_math_for<std::uint64_t>();
    for (std::size_t s = 0; s <= 5; ++s)
        for (std::size_t len = 0; len <= MAXLEN; ++len)
        {
            integer_range(fc::IntegerRange::closed_open(s, s + len), s, s + len);
            if (len > 0) circular(fc::IntegerRange::closed_open(s, s + len), s, s + len);
        }
    for (std::size_t s : {std::size_t{1} << 31, std::size_t{1} << 32, (std::size_t{1} << 63) - 3, BIG - 9, BIG - 12})
        for (std::size_t len = 0; len <= 5; ++len)
        {
            integer_range(fc::IntegerRange::closed_open(s, s + len), s, s + len);
            if (len > 0) circular(fc::IntegerRange::closed_open(s, s + len), s, s + len);
        }
    for (std::size_t s = 0; s <= 3; ++s)
        for (std::size_t len = 0; len <= 8; ++len) filtered(s, len);
    for (std::size_t s : {std::size_t{1} << 32, BIG - 9})
        for (std::size_t len = 0; len <= 5; ++len) filtered(s, len);
    far();
    compile_time<0, 0>(); compile_time<0, 1>(); compile_time<0, 4>(); compile_time<1, 3>(); compile_time<3, 5>(); compile_time<7, 0>();
    for (std::size_t a = 0; a < 4; ++a)
        for (std::size_t b = a; b < 5; ++b)
            for (std::size_t c = 0; c < 4; ++c)
                for (std::size_t d = c; d < 5; ++d)
                    item("range comparison", [&] { CK((fc::IntegerRange::closed_open(a, b) == fc::IntegerRange::closed_open(c, d)) == (a == c && b == d), "=="); });
    item("default range", [&] { CK(fc::IntegerRange{}.distance() == 0 && fc::IntegerRange{} == fc::IntegerRange::closed_open(0, 0), "default constructed range"); });
    // the empty range: nothing to wrap around, every step stays at its only position
    for (std::size_t k : {std::size_t{0}, std::size_t{1}, std::size_t{2}, std::size_t{7}, BIG / 2})
        item("circular indexing in an empty range", [&]
        {
            const auto a = fc::circular_indexing::increment_index_with_wraparound(fc::IntegerRange{}, 0, k);
            const auto b = fc::circular_indexing::decrement_index_with_wraparound(fc::IntegerRange{}, 0, k);
            CK(a.integer == 0 && a.cycles == 0 && b.integer == 0 && b.cycles == 0, "moved within an empty range");
        });
    item("value-initialised circular iterators", [&]
    {
        fc::CircularIntegerRangeIterator<IteratorDirection::FORWARD> f{}, g{};
        fc::CircularIntegerRangeIterator<IteratorDirection::REVERSE> r{}, q{};
        f += 0; f -= 0; r += 0; r -= 0;
        CK(f == g && r == q && f - g == 0 && r - q == 0, "value-initialised circular iterators differ");
    });
    g_states = g_transitions;
    g_notes["enumerated"] = 1;
    finish(0);
}
