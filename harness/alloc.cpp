// No operation allocates, at sizes above every small-buffer threshold: each operation of each container, from each of a list of sizes and with
// arguments of each of a list of lengths, between two readings of the allocation counter.
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <algorithm>
#include <memory>
#include <vector>
using namespace mc;
namespace fc = fixed_containers;
constexpr std::size_t CAP = 320;
struct Nt
{
    int v;
    Nt(int x = 0) : v(x) {}
    Nt(const Nt& o) : v(o.v) {}
    Nt(Nt&& o) noexcept : v(o.v) { o.v = -1; }
    Nt& operator=(const Nt& o) { v = o.v; return *this; }
    Nt& operator=(Nt&& o) noexcept { v = o.v; return *this; }
    ~Nt() { v = -2; }
    friend bool operator==(const Nt& a, const Nt& b) { return a.v == b.v; }
    friend auto operator<=>(const Nt& a, const Nt& b) { return a.v <=> b.v; }
};
struct NtHash { std::uint64_t operator()(const Nt& x) const { return (std::uint64_t)x.v * 0x9E3779B97F4A7C15ULL; } };
static const int SIZES[] = {0, 1, 2, 15, 16, 17, 33, 65, 160, 256, 320};
static const int LENGTHS[] = {0, 1, 2, 15, 17, 33, 65, 160, 257};
// a single-pass source
template <class T> struct In
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    reference operator*() const { return *p; }
    In& operator++() { ++p; return *this; }
    In operator++(int) { In r = *this; ++p; return r; }
    bool operator==(const In& o) const { return p == o.p; }
};
template <class F> static void op(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    ++g_states;
    const auto n0 = g_allocs;
    const Event ev = guarded([&] { R(f()); });
    if (ev.kind != EV_NONE) fail(ALLOC | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_allocs == n0, ALLOC, "allocated dynamic memory");
}
template <class C> struct Box  // the container lives here so that nothing of it is on the heap
{
    alignas(C) static inline unsigned char a[sizeof(C)];
    alignas(C) static inline unsigned char b[sizeof(C)];
};
// every operation of a sequence with `n` elements and an argument of `k`
template <class C, class T> static void sequence(const char* name, bool circular = false)
{
    std::vector<T> src;
    for (int i = 0; i < 400; ++i) src.push_back(T(i * 7 % 101));
    for (int n : SIZES)
    {
        C* pc = nullptr;
        auto fresh = [&] { if (pc) pc->~C(); pc = new (Box<C>::a) C(); for (int i = 0; i < n; ++i) pc->push_back(src[(std::size_t)i]); };
        auto run = [&](const char* what, int k, auto f)
        {
            fresh();
            op(cat_str(name, " of ", n, " elements: ", what, k >= 0 ? cat_str(" ", k) : std::string()), [&] { f(*pc); });
        };
        auto at = [](C& c, long i) { return std::next(c.begin(), i); };
        const bool room = circular || n < (int)CAP;
        for (long p : {0L, (long)n / 2, (long)n})
        {
            if (room)
            {
                run("insert(value) at", (int)p, [&](C& c) { c.insert(at(c, p), src[3]); });
                run("insert(rvalue) at", (int)p, [&](C& c) { c.insert(at(c, p), T(5)); });
                if constexpr (requires(C& c) { c.emplace(c.begin(), 5); }) run("emplace at", (int)p, [&](C& c) { c.emplace(at(c, p), 5); });
            }
            for (int k : LENGTHS)
            {
                if (circular || n + k <= (int)CAP)
                {
                    run("insert(range)", k, [&](C& c) { c.insert(at(c, p), src.data(), src.data() + k); });
                    run("insert(single-pass range)", k, [&](C& c) { c.insert(at(c, p), In<T>{src.data()}, In<T>{src.data() + k}); });
                }
                if (p + k <= n) run("erase(range)", k, [&](C& c) { c.erase(at(c, p), at(c, p + k)); });
            }
            if (n + 20 <= (int)CAP) run("insert(list)", 20, [&](C& c) { c.insert(at(c, p), {T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11), T(12), T(13), T(14), T(15), T(16), T(17), T(18), T(19), T(20)}); });
            if (p < n) run("erase at", (int)p, [&](C& c) { c.erase(at(c, p)); });
        }
        for (int k : LENGTHS)
        {
            run("assign(n, value)", k, [&](C& c) { c.assign((std::size_t)k, src[2]); });
            run("assign(range)", k, [&](C& c) { c.assign(src.data(), src.data() + k); });
            if constexpr (!std::is_same_v<T, char>) run("assign(single-pass range)", k, [&](C& c) { c.assign(In<T>{src.data()}, In<T>{src.data() + k}); });
            run("resize", k, [&](C& c) { if constexpr (requires { c.resize((std::size_t)k, src[1]); }) c.resize((std::size_t)k, src[1]); });
            run("construct(n, value)", k, [&](C&) { new (Box<C>::b) C((std::size_t)k, src[1]); reinterpret_cast<C*>(Box<C>::b)->~C(); });
            if constexpr (!std::is_same_v<T, char>) run("construct(range)", k, [&](C&) { new (Box<C>::b) C(src.data(), src.data() + k); reinterpret_cast<C*>(Box<C>::b)->~C(); });
            run("copy-assign over", k, [&](C& c) { C* d = new (Box<C>::b) C((std::size_t)k, src[1]); *d = c; C* e = d; *d = *e; d->~C(); });
            run("move-assign over", k, [&](C& c) { C* d = new (Box<C>::b) C((std::size_t)k, src[1]); *d = std::move(c); d->~C(); });
            run("swap with", k, [&](C& c) { C* d = new (Box<C>::b) C((std::size_t)k, src[1]); std::swap(*d, c); d->~C(); });
            run("compare with", k, [&](C& c) { C* d = new (Box<C>::b) C((std::size_t)k, src[1]); volatile bool x = *d == c; x = *d < c; x = *d >= c; (void)x; d->~C(); });
        }
        run("copy-construct", -1, [&](C& c) { C* d = new (Box<C>::b) C(c); volatile bool x = *d == c; x = (*d <=> c) < 0; (void)x; d->~C(); });
        run("move-construct", -1, [&](C& c) { C* d = new (Box<C>::b) C(std::move(c)); d->~C(); });
        run("clear", -1, [&](C& c) { c.clear(); });
        run("iterate", -1, [&](C& c) { for (auto& x : c) { volatile bool b = x == src[0]; (void)b; } for (auto it = c.rbegin(); it != c.rend(); ++it) { volatile bool b = *it == src[0]; (void)b; } });
        if (room) run("push_back", -1, [&](C& c) { c.push_back(src[9]); if constexpr (requires { c.emplace_back(5); }) { if (circular || c.size() < CAP) c.emplace_back(5); } });
        if constexpr (requires(C& c) { c.push_front(src[0]); }) { if (room) run("push_front", -1, [&](C& c) { c.push_front(src[9]); if (circular || c.size() < CAP) c.emplace_front(5); }); }
        if (n > 0) run("pop", -1, [&](C& c) { c.pop_back(); if constexpr (requires { c.pop_front(); }) { if (!c.empty()) c.pop_front(); } });
        if (n > 0) run("access", -1, [&](C& c) { volatile bool b = c.front() == c.back(); if constexpr (requires { c[0]; }) b = c[0] == c.at((std::size_t)n - 1); (void)b; });
        if constexpr (requires(C& c) { fc::erase_if(c, [](const T&) { return false; }); }) run("erase_if", -1, [&](C& c) { fc::erase_if(c, [](const T& x) { return x < T(50); }); });
        if constexpr (requires(C& c) { fc::erase(c, src[0]); }) run("erase(value)", -1, [&](C& c) { fc::erase(c, src[0]); });
        if constexpr (requires(C& c) { c.remove(src[0]); }) run("remove", -1, [&](C& c) { c.remove(src[0]); c.remove_if([](const T& x) { return x < T(50); }); });
        if constexpr (std::is_same_v<T, char>)
        {
            for (int k : LENGTHS)
            {
                const std::string_view v(src.data(), (std::size_t)k);
                if (n + k <= (int)CAP)
                {
                    run("append(view)", k, [&](C& c) { c.append(v); });
                    run("append(range)", k, [&](C& c) { c.append(v.begin(), v.end()); });
                    run("+= view", k, [&](C& c) { c += v; });
                    run("insert(view)", k, [&](C& c) { c.insert(c.begin() + n / 2, v); });
                }
                if (2 * n <= (int)CAP) run("append(itself)", -1, [&](C& c) { c.append(c.substr()); });
                run("assign(view)", k, [&](C& c) { c.assign(v); });
                run("= view", k, [&](C& c) { c = v; });
                run("search for", k, [&](C& c)
                {
                    volatile std::size_t r = c.find(v) + c.rfind(v) + c.find_first_of(v) + c.find_last_of(v) + c.find_first_not_of(v) + c.find_last_not_of(v) + (std::size_t)c.compare(v) + c.starts_with(v) + c.ends_with(v) + (c == v) + (c < v);
                    r = r + c.substr(0, (std::size_t)k).size();
                });
                static char word[400];
                for (int i = 0; i < k; ++i) word[i] = (char)('a' + i % 26);
                word[k] = 0;
                run("= C string", k, [&](C& c) { c = (const char*)word; volatile bool b = c == (const char*)word; (void)b; });
                struct Buf : std::streambuf { Buf(char* b, char* e) { setg(b, b, e); setp(b, e); } };
                {
                    static char out[1000];
                    Buf ib(word, word + k), ob(out, out + sizeof out);
                    std::istream is(&ib);
                    std::ostream os(&ob);
                    os << 1 << ' ';
                    run(">> a word of", k, [&](C& c) { is >> c; });
                    run("<<", -1, [&](C& c) { os << c; });
                }
            }
        }
        if (pc) pc->~C();
    }
}
template <class C, class K, bool MAP> static void associative(const char* name)
{
    using P = std::pair<const K, Nt>;
    std::vector<P> pairs;
    std::vector<K> keys;
    for (int i = 0; i < 400; ++i) { keys.push_back(K(i * 37 % 401)); pairs.push_back(P(K(i * 37 % 401), Nt(i))); }
    for (int n : SIZES)
    {
        C* pc = nullptr;
        auto add = [&](C& c, int i) { if constexpr (MAP) c.insert(pairs[(std::size_t)i]); else c.insert(keys[(std::size_t)i]); };
        auto fresh = [&] { if (pc) pc->~C(); pc = new (Box<C>::a) C(); for (int i = 0; i < n; ++i) add(*pc, i); };
        auto run = [&](const char* what, int k, auto f)
        {
            fresh();
            op(cat_str(name, " of ", n, " entries: ", what, k >= 0 ? cat_str(" ", k) : std::string()), [&] { f(*pc); });
        };
        auto other = [&](int k) { C* d = new (Box<C>::b) C(); for (int i = 0; i < k; ++i) add(*d, i + 10); return d; };
        for (int i : {0, n / 2, n})
        {
            if (i < n || n < (int)CAP)
            {
                run("insert", i, [&](C& c) { add(c, i); });
                if constexpr (MAP)
                {
                    run("operator[] / at", i, [&](C& c) { c[keys[(std::size_t)i]] = Nt(3); volatile int x = c.at(keys[(std::size_t)i]).v; (void)x; });
                    run("insert_or_assign", i, [&](C& c) { c.insert_or_assign(keys[(std::size_t)i], Nt(3)); });
                    run("try_emplace", i, [&](C& c) { c.try_emplace(keys[(std::size_t)i], 3); });
                    run("emplace", i, [&](C& c) { c.emplace(keys[(std::size_t)i], Nt(3)); });
                    run("emplace_hint", i, [&](C& c) { c.emplace_hint(c.begin(), keys[(std::size_t)i], Nt(3)); });
                }
                else
                {
                    run("emplace", i, [&](C& c) { c.emplace(keys[(std::size_t)i]); });
                    run("insert(hint)", i, [&](C& c) { c.insert(c.begin(), keys[(std::size_t)i]); });
                }
            }
            run("find / contains / count", i, [&](C& c)
            {
                volatile bool b = c.find(keys[(std::size_t)i]) != c.end();
                b = c.contains(keys[(std::size_t)i]);
                if constexpr (requires { c.count(keys[0]); }) b = c.count(keys[(std::size_t)i]) != 0;
                if constexpr (requires { c.lower_bound(keys[0]); }) b = c.lower_bound(keys[(std::size_t)i]) != c.upper_bound(keys[(std::size_t)i]);
                if constexpr (requires { c.equal_range(keys[0]); }) b = c.equal_range(keys[(std::size_t)i]).first != c.end();
                (void)b;
            });
            run("erase(key)", i, [&](C& c) { c.erase(keys[(std::size_t)i]); });
            if (i < n)
            {
                run("erase(position)", i, [&](C& c) { c.erase(std::next(c.begin(), i)); });
                run("erase(to the end)", i, [&](C& c) { c.erase(std::next(c.begin(), i), c.end()); });
            }
            run("erase(from the start)", i, [&](C& c) { c.erase(c.begin(), std::next(c.begin(), i)); });
        }
        for (int k : LENGTHS)
        {
            if (n + k <= (int)CAP)
            {
                if constexpr (MAP) run("insert(range)", k, [&](C& c) { c.insert(pairs.data() + n, pairs.data() + n + k); });
                else run("insert(range)", k, [&](C& c) { c.insert(keys.data() + n, keys.data() + n + k); });
            }
            if constexpr (MAP) run("construct(range)", k, [&](C&) { C* d = new (Box<C>::b) C(pairs.data(), pairs.data() + k); d->~C(); });
            else run("construct(range)", k, [&](C&) { C* d = new (Box<C>::b) C(keys.data(), keys.data() + k); d->~C(); });
            run("copy-assign over", k, [&](C& c) { C* d = other(k); *d = c; d->~C(); });
            run("move-assign over", k, [&](C& c) { C* d = other(k); *d = std::move(c); d->~C(); });
            run("swap with", k, [&](C& c) { C* d = other(k); std::swap(*d, c); d->~C(); });
            run("compare with", k, [&](C& c) { C* d = other(k); volatile bool b = *d == c; if constexpr (requires { *d < c; }) b = *d < c; (void)b; d->~C(); });
        }
        run("copy-construct", -1, [&](C& c) { C* d = new (Box<C>::b) C(c); volatile bool b = *d == c; (void)b; d->~C(); });
        run("move-construct", -1, [&](C& c) { C* d = new (Box<C>::b) C(std::move(c)); d->~C(); });
        run("clear", -1, [&](C& c) { c.clear(); });
        run("iterate", -1, [&](C& c) { long s = 0; for (auto&& x : c) { s += (long)sizeof(x); } volatile long t = s; (void)t; });
        run("erase_if", -1, [&](C& c) { fc::erase_if(c, [](const auto&) { return true; }); });
        if (pc) pc->~C();
    }
}
template <class C, class T> static void adapter(const char* name, bool circular = false)
{
    for (int n : SIZES)
    {
        C* pc = nullptr;
        auto run = [&](const char* what, auto f)
        {
            if (pc) pc->~C();
            pc = new (Box<C>::a) C();
            for (int i = 0; i < n; ++i) pc->push(T(i));
            op(cat_str(name, " of ", n, " elements: ", what), [&] { f(*pc); });
        };
        if (circular || n < (int)CAP) run("push", [&](C& c) { c.push(T(1)); if (circular || c.size() < CAP) c.emplace(2); });
        if (n > 0) run("pop", [&](C& c) { c.pop(); });
        run("copy, compare", [&](C& c) { C* d = new (Box<C>::b) C(c); volatile bool b = *d == c; if constexpr (requires { *d < c; }) b = *d < c; (void)b; d->~C(); });
        run("move", [&](C& c) { C* d = new (Box<C>::b) C(std::move(c)); c = std::move(*d); c = c; d->~C(); });
        if (pc) pc->~C();
    }
}
enum class Wide : int {};
template <>
struct fixed_containers::rich_enums::EnumAdapter<Wide>
{
    using Enum = Wide;
    static constexpr std::size_t N = 200;
    static constexpr std::array<Wide, N> VALS = [] { std::array<Wide, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = static_cast<Wide>(i); return r; }();
    static constexpr std::size_t count() { return N; }
    static constexpr const std::array<Wide, N>& values() { return VALS; }
    static constexpr std::size_t ordinal(const Wide& k) { return static_cast<std::size_t>(k); }
    static constexpr std::string_view to_string(const Wide&) { return "?"; }
};
static void enums()
{
    std::vector<Wide> ks;
    std::vector<std::pair<const Wide, Nt>> ps;
    for (int i = 0; i < 200; ++i) { ks.push_back((Wide)i); ps.emplace_back((Wide)i, Nt(i)); }
    using S = fc::EnumSet<Wide>;
    using M = fc::EnumMap<Wide, Nt>;
    using A = fc::EnumArray<Wide, Nt>;
    for (int n : {0, 1, 17, 100, 200})
    {
        op(cat_str("EnumSet of ", n), [&]
        {
            S s(ks.data(), ks.data() + n);
            S t = S::complement_of(s), u = S::all(), v = S::copy_of(s);
            volatile bool b = s == t;
            b = (s <=> t) < 0;
            (void)b;
            t.insert((Wide)3); t.erase((Wide)3); t.insert(ks.data(), ks.data() + n); t.erase(t.begin(), t.end());
            for (auto x : u) (void)x;
            fc::erase_if(u, [](Wide w) { return (int)w % 2 == 0; });
            u.clear();
            s = v;
            v = std::move(u);
        });
        op(cat_str("EnumMap of ", n), [&]
        {
            M s(ps.data(), ps.data() + n);
            M t = s, u = M::create_with_keys(ks, Nt(4));
            volatile bool b = s == t;
            (void)b;
            t[(Wide)3] = Nt(5);
            t.erase((Wide)3);
            t.insert(ps.data(), ps.data() + n);
            t.insert_or_assign((Wide)7, Nt(1));
            t.try_emplace((Wide)8, 1);
            t.erase(t.begin(), t.end());
            for (auto&& x : u) (void)x;
            fc::erase_if(u, [](const auto& x) { return (int)x.first % 2 == 0; });
            u.clear();
            s = t;
            t = std::move(s);
        });
    }
    op("EnumArray", [&] { A a; a.fill(Nt(3)); A b = a; a[(Wide)7] = Nt(1); volatile bool x = a == b; (void)x; a.swap(b); a = std::move(b); for (auto& y : a) (void)y; });
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if PART == 0
    sequence<fc::FixedVector<int, CAP>, int>("FixedVector<int>");
    sequence<fc::FixedVector<Nt, CAP>, Nt>("FixedVector<Nt>");
    sequence<fc::FixedDeque<int, CAP>, int>("FixedDeque<int>");
    sequence<fc::FixedDeque<Nt, CAP>, Nt>("FixedDeque<Nt>");
#elif PART == 1
    sequence<fc::FixedCircularDeque<int, CAP>, int>("FixedCircularDeque<int>", true);
    sequence<fc::FixedCircularDeque<Nt, CAP>, Nt>("FixedCircularDeque<Nt>", true);
    sequence<fc::FixedList<int, CAP>, int>("FixedList<int>");
    sequence<fc::FixedList<Nt, CAP>, Nt>("FixedList<Nt>");
#elif PART == 2
    sequence<fc::FixedString<CAP>, char>("FixedString");
    adapter<fc::FixedStack<Nt, CAP>, Nt>("FixedStack");
    adapter<fc::FixedQueue<Nt, CAP>, Nt>("FixedQueue");
    adapter<fc::FixedCircularQueue<Nt, CAP>, Nt>("FixedCircularQueue", true);
    enums();
#else
    associative<fc::FixedMap<int, Nt, CAP>, int, true>("FixedMap<int>");
    associative<fc::FixedMap<Nt, Nt, CAP>, Nt, true>("FixedMap<Nt>");
    associative<fc::FixedSet<int, CAP>, int, false>("FixedSet<int>");
    associative<fc::FixedSet<Nt, CAP>, Nt, false>("FixedSet<Nt>");
    associative<fc::FixedUnorderedMap<int, Nt, CAP>, int, true>("FixedUnorderedMap<int>");
    associative<fc::FixedUnorderedMap<Nt, Nt, CAP, NtHash>, Nt, true>("FixedUnorderedMap<Nt>");
    associative<fc::FixedUnorderedSet<int, CAP>, int, false>("FixedUnorderedSet<int>");
    associative<fc::FixedUnorderedSet<Nt, CAP, NtHash>, Nt, false>("FixedUnorderedSet<Nt>");
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
