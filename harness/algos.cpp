// The iterators of every container under the algorithms of std and std::ranges: all words over three values up to a length, wherever
// they lie in the buffer, against the same algorithm over std::vector (sequences) or std::map / std::set (associative, read only).
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <numeric>
#include <ranges>
#include <set>
#include <string>
#include <vector>
using namespace mc;
namespace fc = fixed_containers;
#ifndef MAXLEN
#define MAXLEN 4
#endif
using W = std::vector<int>;
template <class F> static void item(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const Event ev = guarded([&] { f(); });
    if (ev.kind != EV_NONE) fail(ITER | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, ITER | LIFE | CRASH, "memory error / undefined behaviour");
}
template <class F> static void each_word(int maxlen, F&& f, int alpha = 3)
{
    for (int len = 0; len <= maxlen; ++len)
    {
        long total = 1;
        for (int i = 0; i < len; ++i) total *= alpha;
        for (long code = 0; code < total; ++code)
        {
            W w;
            long x = code;
            for (int i = 0; i < len; ++i, x /= alpha) w.push_back((int)(x % alpha));
            ++g_states;
            f(w);
        }
    }
}
static std::string show(const W& w) { std::string s = "{"; for (int i : w) s += cat_str(s.size() > 1 ? "," : "", i); return s + "}"; }
// an element that is its value (the odd ones) or owns it (a string)
template <class T> static int val(const T& x) { if constexpr (requires { x->operator[](0); }) return (int)x->size(); else if constexpr (requires { *x; }) return *x; else if constexpr (requires { x.get(); }) return x.get(); else return (int)x; }
template <class T> static T make(int v) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v); else return T(v); }
struct Less { template <class A, class B> bool operator()(const A& a, const B& b) const { return val(a) < val(b); } };
struct Same { template <class A, class B> bool operator()(const A& a, const B& b) const { return val(a) == val(b); } };
template <class C> static W values(const C& c) { W r; for (auto& x : c) r.push_back(val(x)); return r; }

template <class I> static void blank(I b, I e) { for (; b != e; ++b) *b = make<typename std::iterator_traits<I>::value_type>(7); }
// Runs `f` on the container's iterators and on the model's, compares content and result (a position or a number)
template <class C, class Mk, class F> static void run(const std::string& what, Mk mk, const W& w, F f)
{
    item(what, [&]
    {
        C c = mk();
        W m = w;
        const auto rc = f(c.begin(), c.end(), [&](auto it) { return (long)std::distance(c.begin(), it); });
        const auto rm = f(m.begin(), m.end(), [&](auto it) { return (long)std::distance(m.begin(), it); });
        MC_CHECK(rc == rm, ITER | SEM, "result ", (long)rc, ", expected ", (long)rm);
        const W got = values(c);
        MC_CHECK(got == m, ITER | SEM, "content ", show(got), ", expected ", show(m));
    });
    item(what + " in reverse", [&]
    {
        C c = mk();
        W m = w;
        const auto rc = f(c.rbegin(), c.rend(), [&](auto it) { return (long)std::distance(c.rbegin(), it); });
        const auto rm = f(m.rbegin(), m.rend(), [&](auto it) { return (long)std::distance(m.rbegin(), it); });
        MC_CHECK(rc == rm, ITER | SEM, "result ", (long)rc, ", expected ", (long)rm);
        const W got = values(c);
        MC_CHECK(got == m, ITER | SEM, "content ", show(got), ", expected ", show(m));
    });
}
template <class C, class Mk> static void all_algorithms(const std::string& name, Mk mk, const W& w)
{
    using T = typename C::value_type;
    using It = typename C::iterator;
    constexpr bool RA = std::random_access_iterator<It>;
    constexpr bool COPYABLE = std::is_copy_constructible_v<T>;
    const int n = (int)w.size();
    auto go = [&](const char* a, auto f) { run<C>(cat_str(a, " over ", name, " ", show(w)), mk, w, f); };
    auto twice = [](const auto& x) { return val(x) != 1; };
    go("reverse", [](auto b, auto e, auto) { std::reverse(b, e); return 0L; });
    go("ranges::reverse", [](auto b, auto e, auto at) { return at(std::ranges::reverse(b, e)); });
    for (int k = 0; k <= n; ++k)
    {
        go("rotate", [k](auto b, auto e, auto at) { return at(std::rotate(b, std::next(b, k), e)); });
        go("ranges::rotate", [k](auto b, auto e, auto at) { return at(std::ranges::rotate(b, std::ranges::next(b, k), e).begin()); });
        go("shift_left", [k](auto b, auto e, auto at) { const auto i = std::shift_left(b, e, k); blank(i, e); return at(i); });
        for (int j = k; j <= n; ++j)
        {
            if (j < n) go("iter_swap", [k, j](auto b, auto e, auto) { std::iter_swap(std::next(b, k), std::next(b, j)); return 0L; });
            if (j < n) go("ranges::iter_swap", [k, j](auto b, auto e, auto) { std::ranges::iter_swap(std::next(b, k), std::next(b, j)); return 0L; });
            go("reverse of a part", [k, j](auto b, auto e, auto) { std::reverse(std::next(b, k), std::next(b, j)); return 0L; });
            if constexpr (RA)
            {
                go("sort of a part", [k, j](auto b, auto e, auto) { std::sort(b + k, b + j, Less{}); return 0L; });
                go("partial_sort", [k, j](auto b, auto e, auto) { std::partial_sort(b + k, b + j, e, Less{}); std::sort(b + j, e, Less{}); return 0L; });
            }
        }
        if constexpr (RA) { if (k < n) go("nth_element", [k](auto b, auto e, auto) { std::nth_element(b, b + k, e, Less{}); const long r = val(b[k]); std::sort(b, e, Less{}); return r; }); }
        go("inplace_merge", [k](auto b, auto e, auto) { std::inplace_merge(b, std::next(b, k), e, Less{}); return 0L; });
        go("swap_ranges", [k](auto b, auto e, auto at) { const long n = std::distance(b, e); return k <= n / 2 ? at(std::swap_ranges(b, std::next(b, k), std::next(b, n - k))) : 0L; });
        go("move_backward", [k](auto b, auto e, auto at) { std::vector<typename std::iterator_traits<decltype(b)>::value_type> t; std::move(b, e, std::back_inserter(t)); std::move_backward(t.begin(), t.begin() + k, e); std::move(t.begin() + k, t.end(), b); return 0L; });
    }
    if constexpr (RA)
    {
        go("sort", [](auto b, auto e, auto) { std::sort(b, e, Less{}); return 0L; });
        go("ranges::sort", [](auto b, auto e, auto at) { return at(std::ranges::sort(b, e, Less{})); });
        go("heap", [](auto b, auto e, auto) { std::make_heap(b, e, Less{}); const bool h = std::is_heap(b, e, Less{}); std::sort_heap(b, e, Less{}); return (long)h; });
    }
    go("stable_sort by inplace_merge", [](auto b, auto e, auto) { for (auto i = b; i != e; ++i) std::inplace_merge(b, i, std::next(i), Less{}); return 0L; });
    if constexpr (RA) go("stable_sort", [](auto b, auto e, auto) { std::stable_sort(b, e, Less{}); return 0L; });
    go("partition", [&](auto b, auto e, auto at) { const auto r = at(std::stable_partition(b, e, twice)); return r; });
    go("next_permutation", [](auto b, auto e, auto) { return (long)std::next_permutation(b, e, Less{}); });
    go("prev_permutation", [](auto b, auto e, auto) { return (long)std::prev_permutation(b, e, Less{}); });
    go("min, max_element", [](auto b, auto e, auto at) { const auto p = std::minmax_element(b, e, Less{}); return at(p.first) * 10 + at(p.second); });
    go("is_sorted_until", [](auto b, auto e, auto at) { return at(std::is_sorted_until(b, e, Less{})); });
    go("adjacent_find", [](auto b, auto e, auto at) { return at(std::adjacent_find(b, e, Same{})); });
    go("find_if", [&](auto b, auto e, auto at) { return at(std::find_if_not(b, e, twice)) + 10 * at(std::ranges::find_if_not(b, e, twice)); });
    go("count_if", [&](auto b, auto e, auto) { return (long)std::count_if(b, e, twice) + 10 * (long)std::ranges::distance(b, e); });
    go("find_end", [&](auto b, auto e, auto at) { return at(std::find_end(b, e, b, std::next(b, std::min<long>(1, std::distance(b, e))), Same{})); });
    go("accumulate", [](auto b, auto e, auto) { return std::accumulate(b, e, 1L, [](long a, const auto& x) { return a * 4 + val(x); }); });
    go("equal", [](auto b, auto e, auto) { return (long)std::equal(b, e, b, e, Same{}); });
    go("binary searches", [](auto b, auto e, auto at)
    {
        if (!std::is_sorted(b, e, Less{})) return -1L;
        long r = 0;
        for (int k = -1; k < 4; ++k) { const auto p = std::equal_range(b, e, k, Less{}); r = r * 100 + at(std::lower_bound(b, e, k, Less{})) * 10 + at(p.second) + at(p.first) + std::ranges::distance(b, std::ranges::upper_bound(b, e, k, std::less<>{}, [](const auto& x) { return val(x); })); }
        return r;
    });
    if constexpr (COPYABLE)
    {
        go("unique", [](auto b, auto e, auto at) { const auto i = std::unique(b, e, Same{}); blank(i, e); return at(i); });
        go("remove_if", [&](auto b, auto e, auto at) { const auto i = std::remove_if(b, e, twice); blank(i, e); return at(i); });
        go("fill of a part", [](auto b, auto e, auto at) { using V = typename std::iterator_traits<decltype(b)>::value_type; const long n = std::distance(b, e); std::fill(std::next(b, n / 2), e, V(7)); return at(std::fill_n(b, n / 3, V(8))); });
        go("transform in place", [](auto b, auto e, auto at) { using V = typename std::iterator_traits<decltype(b)>::value_type; return at(std::transform(b, e, b, [](const auto& x) { return V(val(x) + 1); })); });
        go("replace_if", [&](auto b, auto e, auto) { using V = typename std::iterator_traits<decltype(b)>::value_type; std::replace_if(b, e, twice, V(9)); return 0L; });
        go("copy_backward", [](auto b, auto e, auto at) { const long n = std::distance(b, e); return n ? at(std::copy_backward(b, std::prev(e), e)) : 0L; });
        go("copy", [](auto b, auto e, auto at) { const long n = std::distance(b, e); return n ? at(std::copy(std::next(b), e, b)) : 0L; });
        go("generate", [](auto b, auto e, auto) { using V = typename std::iterator_traits<decltype(b)>::value_type; int i = 0; std::generate(b, e, [&] { return V(i++); }); return 0L; });
    }
    item(cat_str("views over ", name, " ", show(w)), [&]
    {
        C c = mk();
        const C& k = c;
        auto list = [](auto&& v) { W r; for (auto&& x : v) r.push_back(val(x)); return r; };
        W rev(w.rbegin(), w.rend());
        MC_CHECK(list(c | std::views::all) == w && list(k | std::views::all) == w, ITER, "all");
        MC_CHECK(list(c | std::views::reverse) == rev && list(k | std::views::reverse) == rev, ITER, "reverse");
        MC_CHECK(list(c | std::views::reverse | std::views::reverse) == w, ITER, "reverse of reverse");
        for (int i = 0; i <= n + 1; ++i)
        {
            MC_CHECK(list(c | std::views::take(i)) == list(w | std::views::take(i)) && list(k | std::views::drop(i)) == list(w | std::views::drop(i)), ITER, "take, drop ", i);
            MC_CHECK(list(c | std::views::drop(i) | std::views::reverse) == list(w | std::views::drop(i) | std::views::reverse), ITER, "drop, reverse ", i);
            MC_CHECK(list(c | std::views::reverse | std::views::drop(i)) == list(w | std::views::reverse | std::views::drop(i)), ITER, "reverse, drop ", i);
        }
        MC_CHECK(list(c | std::views::filter(twice)) == list(w | std::views::filter(twice)), ITER, "filter");
        MC_CHECK(list(k | std::views::transform([](const auto& x) { return val(x) + 3; })) == list(w | std::views::transform([](int x) { return x + 3; })), ITER, "transform");
        MC_CHECK((long)std::ranges::size(c) == n && std::ranges::empty(k) == (n == 0) && std::ranges::ssize(k) == n, ITER, "size");
        MC_CHECK(std::ranges::distance(c) == n && std::ranges::distance(k.rbegin(), k.rend()) == n, ITER, "distance");
        MC_CHECK(std::ranges::next(c.begin(), n) == c.end() && std::ranges::prev(c.end(), n) == c.begin() && std::ranges::next(k.begin(), n + 3, k.end()) == k.end() && std::ranges::prev(k.end(), n + 3, k.begin()) == k.begin(), ITER, "next, prev");
        MC_CHECK(std::ranges::equal(c, k, Same{}) && std::ranges::equal(std::ranges::subrange(c.begin(), c.end()), w, Same{}), ITER, "equal");
        if constexpr (RA)
            for (int i = 0; i < n; ++i)
                MC_CHECK(val(std::ranges::begin(c)[i]) == w[(std::size_t)i] && val(std::ranges::rbegin(k)[i]) == rev[(std::size_t)i] && val((c | std::views::reverse)[i]) == rev[(std::size_t)i] && val((k | std::views::drop(i))[0]) == w[(std::size_t)i], ITER, "subscript ", i);
        if constexpr (std::contiguous_iterator<It>)
            MC_CHECK(std::to_address(c.begin()) == c.data() && std::ranges::data(k) == k.data() && std::to_address(c.end()) == c.data() + n, ITER, "contiguous");
        // mixed constness
        MC_CHECK((c.begin() == k.begin()) && (k.end() == c.end()) && (c.begin() == k.end()) == (n == 0), ITER, "mixed constness");
        // iter_move
        if (n) { T t = std::ranges::iter_move(c.begin()); MC_CHECK(val(t) == w[0], ITER, "iter_move"); *c.begin() = std::move(t); MC_CHECK(list(c) == w, ITER, "iter_move and back"); }
    });
}
#if KIND <= 3
#if KIND == 0
template <class T, std::size_t N> using C_ = fc::FixedVector<T, N>;
#define NAME "FixedVector"
#elif KIND == 1
template <class T, std::size_t N> using C_ = fc::FixedDeque<T, N>;
#define NAME "FixedDeque"
#elif KIND == 2
template <class T, std::size_t N> using C_ = fc::FixedCircularDeque<T, N>;
#define NAME "FixedCircularDeque"
#else
template <class T, std::size_t N> using C_ = fc::FixedList<T, N>;
#define NAME "FixedList"
#endif
template <class T, std::size_t N> static void sequences(const char* tn)
{
    using C = C_<T, N>;
    using It = typename C::iterator;
    using CIt = typename C::const_iterator;
    static_assert(KIND == 3 ? std::bidirectional_iterator<It> && std::bidirectional_iterator<CIt> : std::random_access_iterator<It> && std::random_access_iterator<CIt>);
    static_assert(std::sentinel_for<CIt, It> && std::sentinel_for<It, CIt>);
    static_assert(std::ranges::sized_range<C> && std::ranges::common_range<C> && std::ranges::common_range<const C>);
    static_assert(std::is_same_v<std::iter_value_t<CIt>, T> && std::is_same_v<std::iter_reference_t<CIt>, const T&> && std::is_same_v<std::iter_reference_t<It>, T&>);
    static_assert(std::permutable<It> && !std::permutable<CIt>);
#if KIND == 0
    static_assert(std::contiguous_iterator<It> && std::contiguous_iterator<CIt>);
#endif
    each_word(std::min<int>(MAXLEN, (int)N), [&](const W& w)
    {
        for (int turn = 0; turn < (KIND == 0 ? 1 : (int)N); ++turn)
        {
            auto mk = [&]
            {
                C c;
#if KIND == 3
                // list: leave the nodes in some other order
                for (std::size_t i = 0; i < N; ++i) c.push_back(make<T>(9));
                for (int i = 0; i < turn; ++i) c.erase(c.begin());
                while (!c.empty()) c.erase(std::prev(c.end()));
#elif KIND > 0
                for (int i = 0; i < turn; ++i) { c.push_back(make<T>(9)); c.pop_front(); }
#endif
                for (int i : w) c.push_back(make<T>(i));
                return c;
            };
            all_algorithms<C>(cat_str(NAME " of ", tn, KIND ? cat_str(" turned by ", turn) : std::string()), mk, w);
        }
    });
}
static void run_all()
{
    sequences<int, MAXLEN>("int");
    sequences<Tracked, MAXLEN + 1>("Tracked");
}
#else
// ---------------------------------------------------------------- read only
enum class E { A, B, C, D };
template <class X> static long num(const X& x)
{
    if constexpr (requires { x.first; }) return (long)x.first * 100 + (long)x.second;
    else if constexpr (requires { x.first(); }) return (long)x.first() * 100 + (long)x.second();
    else return (long)x;
}
template <class C, class M> static void readonly(const std::string& name, const C& c, const M& m, bool ordered)
{
    item(cat_str("algorithms over ", name), [&]
    {
        using It = typename C::const_iterator;
        static_assert(std::forward_iterator<It> || std::input_iterator<It>);
        std::vector<long> want, got;
        for (auto& x : m) want.push_back(num(x));
        std::transform(c.begin(), c.end(), std::back_inserter(got), [](const auto& x) { return num(x); });
        if (!ordered) { std::sort(want.begin(), want.end()); auto g = got; std::sort(g.begin(), g.end()); MC_CHECK(g == want, ITER | SEM, "content"); want = got; }
        MC_CHECK(got == want, ITER | SEM, "transform");
        const long n = (long)want.size();
        MC_CHECK(std::distance(c.begin(), c.end()) == n && std::ranges::distance(c.begin(), c.end()) == n, ITER, "distance");
        MC_CHECK(std::accumulate(c.begin(), c.end(), 1L, [](long a, const auto& x) { return a * 7 + num(x); }) == std::accumulate(want.begin(), want.end(), 1L, [](long a, long x) { return a * 7 + x; }), ITER, "accumulate");
        for (long k = 0; k < n; ++k)
        {
            const auto it = std::find_if(c.begin(), c.end(), [&](const auto& x) { return num(x) == want[(std::size_t)k]; });
            MC_CHECK(it != c.end() && std::distance(c.begin(), it) == k && it == std::next(c.begin(), k), ITER, "find_if ", k);
            MC_CHECK(num(*std::next(c.begin(), k)) == want[(std::size_t)k], ITER, "next ", k);
            if constexpr (std::bidirectional_iterator<It> || requires(It i) { --i; })
            {
                auto p = c.end();
                for (long i = 0; i < n - k; ++i) --p;
                MC_CHECK(p == it && num(*p) == want[(std::size_t)k], ITER, "from the back ", k);
            }
        }
        const auto mn = std::min_element(c.begin(), c.end(), [](const auto& a, const auto& b) { return num(a) < num(b); });
        const auto mx = std::max_element(c.begin(), c.end(), [](const auto& a, const auto& b) { return num(a) < num(b); });
        if (n) MC_CHECK(num(*mn) == *std::min_element(want.begin(), want.end()) && num(*mx) == *std::max_element(want.begin(), want.end()), ITER, "min, max");
        if (!n) MC_CHECK(mn == c.end() && mx == c.end(), ITER, "min, max of nothing");
        MC_CHECK(std::equal(c.begin(), c.end(), c.begin(), c.end(), [](const auto& a, const auto& b) { return num(a) == num(b); }), ITER, "equal");
        MC_CHECK(std::count_if(c.begin(), c.end(), [](const auto& x) { return num(x) % 2 == 0; }) == std::count_if(want.begin(), want.end(), [](long x) { return x % 2 == 0; }), ITER, "count_if");
        if (ordered) MC_CHECK(std::is_sorted(c.begin(), c.end(), [](const auto& a, const auto& b) { return num(a) < num(b); }), ITER, "is_sorted");
        if constexpr (requires { c.rbegin(); })
        {
            std::vector<long> back;
            std::transform(c.rbegin(), c.rend(), std::back_inserter(back), [](const auto& x) { return num(x); });
            std::reverse(back.begin(), back.end());
            MC_CHECK(back == want, ITER, "backwards");
        }
        if constexpr (std::ranges::input_range<const C>)
        {
            for (long k = 0; k <= n + 1; ++k)
            {
                std::vector<long> r;
                for (auto&& x : c | std::views::take(k)) r.push_back(num(x));
                MC_CHECK(r == std::vector<long>(want.begin(), want.begin() + std::min(k, n)), ITER, "take ", k);
                r.clear();
                for (auto&& x : c | std::views::drop(k)) r.push_back(num(x));
                MC_CHECK(r == std::vector<long>(want.begin() + std::min(k, n), want.end()), ITER, "drop ", k);
            }
            std::vector<long> r;
            for (auto&& x : c | std::views::filter([](const auto& x) { return num(x) % 2 == 0; })) r.push_back(num(x));
            std::vector<long> q;
            std::copy_if(want.begin(), want.end(), std::back_inserter(q), [](long x) { return x % 2 == 0; });
            MC_CHECK(r == q, ITER, "filter");
            if constexpr (std::ranges::bidirectional_range<const C>)
            {
                r.clear();
                for (auto&& x : c | std::views::reverse) r.push_back(num(x));
                std::reverse(r.begin(), r.end());
                MC_CHECK(r == want, ITER, "views::reverse");
            }
        }
        // copies made of the range
        {
            M z(c.begin(), c.end());
            std::vector<long> a;
            for (auto& x : z) a.push_back(num(x));
            if (!ordered) { std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end()); }
            MC_CHECK(a == want, ITER, "std container made of the range");
        }
    });
}
template <class K> static K key(int i) { return (K)i; }
template <class C, bool MAPPED, bool ORDERED, class K> static void associative(const char* name)
{
    // every order of insertion with every erasure in between: words over 4 keys, a repeated key is an erasure
    each_word(MAXLEN + 1, [&](const W& w)
    {
        C c;
        std::map<K, int> mm;
        std::set<K> ms;
        int v = 0;
        for (int i : w)
        {
            const K k = key<K>(i);
            if (ms.count(k)) { c.erase(k); ms.erase(k); mm.erase(k); }
            else
            {
                ++v;
                ms.insert(k); mm.emplace(k, v);
                if constexpr (MAPPED) c.try_emplace(k, v); else c.insert(k);
            }
        }
        const auto n = cat_str(name, " after ", show(w));
        if constexpr (MAPPED) readonly(n, c, mm, ORDERED); else readonly(n, c, ms, ORDERED);
        if constexpr (MAPPED)
            item(cat_str("writing through ", n), [&]
            {
                std::for_each(c.begin(), c.end(), [](auto&& p) { if constexpr (requires { p.second(); }) p.second() += 50; else p.second += 50; });
                for (auto& [k, x] : mm) MC_CHECK(c.at(k) == x + 50, ITER | SEM, "value");
            });
    }, 4);
}
static void run_all()
{
#if KIND == 4
    associative<fc::FixedMap<int, int, 4>, true, true, int>("FixedMap");
    associative<fc::FixedSet<int, 4>, false, true, int>("FixedSet");
#elif KIND == 5
    associative<fc::FixedUnorderedMap<int, int, 4>, true, false, int>("FixedUnorderedMap");
    associative<fc::FixedUnorderedSet<int, 4>, false, false, int>("FixedUnorderedSet");
#elif KIND == 6
    associative<fc::EnumMap<E, int>, true, true, E>("EnumMap");
    associative<fc::EnumSet<E>, false, true, E>("EnumSet");
    each_word(4, [&](const W& w)
    {
        if (w.size() != 4) return;
        auto mk = [&] { fc::EnumArray<E, int> a; for (int i = 0; i < 4; ++i) a[(E)i] = w[(std::size_t)i]; return a; };
        all_algorithms<fc::EnumArray<E, int>>("EnumArray", mk, w);
    });
#else
    each_word(MAXLEN, [&](const W& w)
    {
        auto mk = [&] { fc::FixedString<MAXLEN> s; for (int i : w) s.push_back((char)i); return s; };
        all_algorithms<fc::FixedString<MAXLEN>>("FixedString", mk, w);
    });
#endif
}
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
    run_all();
    g_notes["enumerated"] = 1;
    finish(0);
}
