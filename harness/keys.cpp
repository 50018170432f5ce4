// Hash containers with default hashing and real-world key types; default hashing itself.
// Part A: every key of the domain at every placement hashes to the same value (and in constant evaluation), nothing but
//         the key's own bytes is read (each placement is an exact-size heap block under ASan).
// Part B: all sequences of DEPTH insertions/erasures over a key domain, with a fresh copy of every key used in
//         every call, against std::unordered_map / std::unordered_set.
#include "mc.hpp"
#include "fixed_containers/enum_utils.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/wyhash.hpp"
#include <string>
#include <string_view>
using namespace mc;
namespace fc = fixed_containers;
#ifndef DEPTH
#define DEPTH 4
#endif
enum class Small : signed char { A = -128, B = -1, C = 0, D = 1, E = 127 };
enum class Big : std::uint64_t { A = 0, B = 1, C = 1ull << 63, D = ~0ull, E = 256 };

enum Old { OLD_A, OLD_B = 7, OLD_C = 1 << 20 };
template <class T>
static std::uint64_t h(const T& x) { return fc::wyhash::hash<T>{}(x); }

// ---------------------------------------------------------------- part A
static void guard(const std::string& what, const std::function<void()>& f)
{
    g_current_op = what;
    const auto san0 = g_san_reports;
    const auto allocs0 = g_allocs;
    const Event ev = guarded(f);
    ++g_transitions;
    if (ev.kind != EV_NONE) fail(MISC | SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, MISC | SEM | LIFE | CRASH, "memory error / undefined behaviour");
    (void)allocs0;
}
template <class Ch>
static void strings(const char* nm)
{
    using S = std::basic_string<Ch>;
    using V = std::basic_string_view<Ch>;
    for (std::size_t len = 0; len <= 200; ++len)
        for (int pat = 0; pat < 3; ++pat)
        {
            S s(len, Ch(0));
            for (std::size_t i = 0; i < len; ++i) s[i] = pat == 0 ? Ch(0) : pat == 1 ? Ch(i * 7 + 1) : Ch(~i);
            guard(cat_str(nm, " of length ", (long)len, " pattern ", pat), [&]
            {
                const std::uint64_t want = h(s);
                for (std::size_t off = 0; off < 17; ++off)
                {
                    // exact-size block: reading past either end is an error
                    Ch* raw = static_cast<Ch*>(std::malloc((len + off) * sizeof(Ch) + (len + off == 0)));
                    for (std::size_t i = 0; i < off; ++i) raw[i] = Ch(off + i);
                    std::copy(s.begin(), s.end(), raw + off);
                    const std::uint64_t got = R(h(V(raw + off, len)));
                    std::free(raw);
                    MC_CHECK(got == want, MISC | SEM, "the hash of a string depends on where it lies or on its neighbours");
                    ++g_states;
                }
                S t = s;
                t.reserve(len + 50);
                t += S(20, Ch(9));
                t.resize(len);
                MC_CHECK(R(h(t)) == want, MISC | SEM, "equal strings hash differently");
            });
        }
}
template <class T, T X>
static void ct()
{
    constexpr std::uint64_t a = fc::wyhash::hash<T>{}(X);
    volatile T y0 = X;
    const T y = y0;
    guard("constant evaluation", [&] { MC_CHECK(R(h<T>(y)) == a, MISC | SEM | CEXPR, "the hash differs between compile time and run time"); });
    ++g_states;
}
template <class T, T... X>
static void cts() { (ct<T, X>(), ...); }

// ---------------------------------------------------------------- part B
template <class K>
struct Domain;
template <>
struct Domain<std::string>
{
    static constexpr int N = 8;
    static std::string make(int i)
    {
        static const std::size_t len[N] = {0, 3, 16, 17, 48, 49, 49, 97};
        std::string s(len[i], 'x');
        if (i == 6) s[48] = 'y';
        s.reserve(len[i] + 8);
        return s;
    }
};
static std::vector<char*> g_blocks;
template <>
struct Domain<std::string_view>
{
    static constexpr int N = 8;
    static std::string_view make(int i)
    {
        const std::string s = Domain<std::string>::make(i);
        char* p = static_cast<char*>(std::malloc(s.size() + (s.empty() ? 1 : 0)));
        std::memcpy(p, s.data(), s.size());
        g_blocks.push_back(p);
        return {p, s.size()};
    }
};
template <> struct Domain<int*> { static constexpr int N = 6; static int* make(int i) { static int a[6]; return i == 0 ? nullptr : a + i; } };
template <> struct Domain<Small> { static constexpr int N = 5; static Small make(int i) { static const Small a[] = {Small::A, Small::B, Small::C, Small::D, Small::E}; return a[i]; } };
template <> struct Domain<Big> { static constexpr int N = 5; static Big make(int i) { static const Big a[] = {Big::A, Big::B, Big::C, Big::D, Big::E}; return a[i]; } };
template <> struct Domain<long> { static constexpr int N = 6; static long make(int i) { static const long a[] = {0, -1, 1, std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), 256}; return a[i]; } };
template <> struct Domain<bool> { static constexpr int N = 2; static bool make(int i) { return i != 0; } };
template <> struct Domain<char> { static constexpr int N = 5; static char make(int i) { static const char a[] = {0, -1, 1, 127, -128}; return a[i]; } };
template <> struct Domain<double> { static constexpr int N = 6; static double make(int i) { static int n = 0; ++n; const double a[] = {n & 1 ? 0.0 : -0.0, 0.5, -1.0, 1e300, 0.25, 1e-300}; return a[i]; } };

template <> struct Domain<Old> { static constexpr int N = 3; static Old make(int i) { static const Old a[] = {OLD_A, OLD_B, OLD_C}; return a[i]; } };
template <> struct Domain<float> { static constexpr int N = 5; static float make(int i) { static int n = 0; ++n; const float a[] = {n & 1 ? 0.0f : -0.0f, 0.5f, -1.0f, 3e38f, -3e38f}; return a[i]; } };

static std::string g_hist;
template <class C, class K, bool MAP>
static void apply(const char* nm)
{
    constexpr int N = Domain<K>::N;
    constexpr int CAPN = C::static_max_size();
    const int OPS = 2 * N + 1;
    std::vector<int> seq(DEPTH, 0);
    auto mk = [](int i) { return Domain<K>::make(i); };
    std::uint64_t total = 1;
    for (int i = 0; i < DEPTH; ++i) total *= (std::uint64_t)OPS;
    for (std::uint64_t code = 0; code < total; ++code)
    {
        std::uint64_t x = code;
        bool legal = true;
        {
            std::set<int> m;
            for (int i = 0; i < DEPTH && legal; ++i)
            {
                seq[i] = (int)(x % (std::uint64_t)OPS);
                x /= (std::uint64_t)OPS;
                if (seq[i] < N) { m.insert(seq[i]); legal = (int)m.size() <= CAPN; }
                else if (seq[i] < 2 * N) m.erase(seq[i] - N);
            }
        }
        if (!legal) continue;
        g_hist = std::string(nm) + ":";
        for (int o : seq) g_hist += o < N ? cat_str(" insert ", o) : o < 2 * N ? cat_str(" erase ", o - N) : std::string(" copy");
        guard(g_hist, [&]
        {
            C* c = new C();
            std::map<int, int> m;
            int stamp = 0;
            for (int o : seq)
            {
                ++stamp;
                if (o < N)
                {
                    const bool fresh = !m.count(o);
                    if constexpr (MAP)
                    {
                        auto [it, ins] = c->try_emplace(mk(o), stamp);
                        if (fresh) m[o] = stamp;
                        MC_CHECK(ins == fresh && it->first == mk(o) && it->second == m[o], SEM, "insertion");
                    }
                    else
                    {
                        auto [it, ins] = c->insert(mk(o));
                        m.emplace(o, stamp);
                        MC_CHECK(ins == fresh && *it == mk(o), SEM, "insertion");
                    }
                }
                else if (o < 2 * N) MC_CHECK(c->erase(mk(o - N)) == m.erase(o - N), SEM, "erasure count");
                else
                {
                    C* d = new C(*c);
                    MC_CHECK(*d == *c, SEM | CMP | COPY, "copy differs");
                    delete c;
                    c = d;
                }
            }
            MC_CHECK(c->size() == m.size(), SEM, "size");
            for (int i = 0; i < N; ++i)
            {
                MC_CHECK(c->contains(mk(i)) == (m.count(i) != 0) && c->count(mk(i)) == m.count(i), SEM, "lookup of key ", i);
                auto it = c->find(mk(i));
                MC_CHECK((it != c->end()) == (m.count(i) != 0), SEM, "find of key ", i);
                if constexpr (MAP) { if (m.count(i)) MC_CHECK(it->second == m[i] && c->at(mk(i)) == m[i], SEM, "value of key ", i); }
            }
            std::size_t n = 0;
            for (auto&& e : *c) { (void)e; ++n; }
            MC_CHECK(n == m.size(), SEM | ITER, "iteration");
            delete c;
        });
        ++g_states;
        for (char* p : g_blocks) std::free(p);
        g_blocks.clear();
    }
}
template <class K>
static void both(const char* nm)
{
    constexpr std::size_t CAPK = Domain<K>::N > 3 ? 3 : 2;
#if PART == 0
    apply<fc::FixedUnorderedMap<K, int, CAPK>, K, true>(nm);
    apply<fc::FixedMap<K, int, CAPK>, K, true>(nm);
#else
    apply<fc::FixedUnorderedSet<K, CAPK>, K, false>(nm);
    apply<fc::FixedSet<K, CAPK>, K, false>(nm);
#endif
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if PART == 2
    strings<char>("string");
    strings<wchar_t>("wstring");
    strings<char16_t>("u16string");
    cts<int, 0, 1, -1, 255, 256, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()>();
    cts<std::uint64_t, 0, 1, ~0ull, 1ull << 63, 1ull << 32, (1ull << 32) - 1, 0x9E3779B97F4A7C15ull>();
    cts<long, 0, -1, std::numeric_limits<long>::min()>();
    cts<unsigned char, 0, 1, 255>();
    cts<signed char, 0, -1, -128, 127>();
    cts<bool, false, true>();
    cts<char16_t, 0, 0xFFFF>();
    cts<Small, Small::A, Small::B, Small::C, Small::D, Small::E>();
    cts<Big, Big::A, Big::B, Big::C, Big::D, Big::E>();
    cts<Old, OLD_A, OLD_B, OLD_C>();
    cts<double, 0.0, -0.0, -1.0, 1e300, 0.5>();
    cts<float, 0.0f, -0.0f, -1.0f, 3e38f, 0.5f>();
    guard("floating point", []
    {
        MC_CHECK(R(h(0.0)) == R(h(-0.0)) && R(h(0.0f)) == R(h(-0.0f)) && R(h(0.0L)) == R(h(-0.0L)), MISC | SEM, "zeros are equal but hash differently");
        for (long double x : {-1.0L, 1e4000L, 0.5L}) MC_CHECK(R(h(x)) == R(h(x)), MISC | SEM, "long double");
    });
    guard("pointers", []
    {
        static int a[4];
        auto u = std::make_unique<int>(3);
        auto sp = std::make_shared<int>(4), sq = sp;
        for (int i = 0; i < 4; ++i) MC_CHECK(R(h<int*>(a + i)) == h<int*>(&a[i]), MISC | SEM, "pointer");
        MC_CHECK(R(h(sp)) == R(h(sq)), MISC | SEM, "shared_ptr: equal pointers hash differently");
        int* raw = u.get();
        const auto hu = R(h(u));
        auto w = std::move(u);
        MC_CHECK(R(h(w)) == hu && w.get() == raw, MISC | SEM, "unique_ptr: the hash depends on the owner");
    });
    g_notes["enumerated"] = 1;
    finish(0);
#else
    both<std::string>("std::string");
    both<std::string_view>("std::string_view");
    both<int*>("pointer");
    both<Small>("enum : signed char");
    both<Big>("enum : uint64_t");
    both<long>("long");
    both<bool>("bool");
    both<char>("char");
    both<double>("double");
    both<float>("float");
    both<Old>("unscoped enum");
    g_notes["enumerated"] = 1;
    finish(0);
#endif
}
