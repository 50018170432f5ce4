// EnumMap / EnumSet against std::map<ordinal, value>.   -DKIND_EMAP | -DKIND_ESET
// -DENUM=en::X -DVAL=<type> -DNVALS=<n> [-DPOLICY_ABORT]
#include "mc.hpp"
#include <list>
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "enums.hpp"
using namespace mc;
namespace fc = fixed_containers;
#ifndef VAL
#define VAL int
#endif
#ifndef NVALS
#define NVALS 2
#endif
using GK = ENUM;
using GW = VAL;
#ifdef KIND_EMAP
constexpr bool MAPC = true;
#else
constexpr bool MAPC = false;
#endif
constexpr std::size_t N = fc::rich_enums::EnumAdapter<GK>::count();
static std::vector<GK> KS;
static int ord(const GK& k)
{
    for (std::size_t i = 0; i < KS.size(); ++i) if (KS[i] == k) return (int)i;
    return -1;
}
constexpr int EV_MISSING = EV_LENGTH, EV_DUP = EV_INVALID;  // aliases for the map-specific reports
struct Rec
{
    template <class L> [[noreturn]] static void missing_enum_entries(const L&) { raise_event(EV_MISSING); }
    template <class L> [[noreturn]] static void duplicate_enum_entries(const L&) { raise_event(EV_DUP); }
    template <class L> [[noreturn]] static void out_of_range(const GK& k, std::size_t n, const L&) { raise_event(EV_OUT_OF_RANGE, ord(k), (long)n); }
};
#if defined(KIND_ESET)
using GC = fc::EnumSet<GK>;
#elif defined(POLICY_ABORT)
using GC = fc::EnumMap<GK, GW>;
#else
using GC = fc::EnumMap<GK, GW, Rec>;
#endif

template <class C, class K, class W, bool MAP>
struct SysT
{
    using Sys = SysT;
    using M = std::map<int, int>;
    static constexpr bool TRACKED = MAP && is_tracked<W>;
    static constexpr bool TRIVIAL = !MAP || std::is_trivially_copyable_v<W>;
    static constexpr bool RELOCATABLE = TRIVIAL;
    static constexpr bool COPYABLE = !MAP || std::is_copy_constructible_v<W>;
    static constexpr bool WDEF = !MAP || std::is_default_constructible_v<W>;
    M model;
    std::vector<Op<Sys>> ops;
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }
    std::string ser(const M& m)
    {
        std::string o;
        for (auto& [k, v] : m) { o += (char)k; o += (char)v; }
        return o;
    }
    M deser(const char* p, std::size_t n)
    {
        M m;
        for (std::size_t i = 0; i < n; i += 2) m[p[i]] = p[i + 1];
        return m;
    }
    // States are identified by their bytes without padding (bytes that a construction leaves alone).
    std::vector<bool> noise;
    void learn_noise()
    {
        alignas(C) static unsigned char a[sizeof(C)], b[sizeof(C)];
        std::memset(a, 0x00, sizeof a);
        std::memset(b, 0xFF, sizeof b);
        new (a) C();
        new (b) C();
        noise.resize(sizeof(C));
        for (std::size_t i = 0; i < sizeof(C); ++i) noise[i] = a[i] == 0x00 && b[i] == 0xFF;
    }
    std::string abs_key()
    {
        std::string o(reinterpret_cast<const char*>(slot(0)), sizeof(C));
        if constexpr (!MAP)
            for (std::size_t i = 0; i < sizeof(C); ++i) if (noise[i]) o[i] = 0;
        return o;
    }
    static std::string show(const M& m)
    {
        std::string o = "{";
        for (auto& [k, v] : m) o += cat_str("#", k, MAP ? ":" : "", MAP ? std::to_string(v) : std::string(), " ");
        return o + "}";
    }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    template <class X> static int kof(X&& x) { if constexpr (MAP) return ord(x.first); else return ord(x); }
    template <class X> static int vof(X&& x) { if constexpr (MAP) return val(x.second); else return 1; }
    static auto mkpair(int k, int v)
    {
        if constexpr (MAP) return std::pair<const K, W>(KS[(std::size_t)k], W(v));
        else return KS[(std::size_t)k];
    }
    template <class X>
    static std::vector<std::pair<int, int>> contents(X& x)
    {
        std::vector<std::pair<int, int>> o;
        std::size_t g = 0;
        for (auto it = x.begin(); it != x.end(); ++it)
        {
            if (++g > N + 3) break;
            o.push_back({kof(*it), vof(*it)});
        }
        return o;
    }
    static std::vector<std::pair<int, int>> flat(const M& m) { return {m.begin(), m.end()}; }
    template <class X>
    static bool eqv(X& x, const M& m) { return x.size() == m.size() && contents(x) == flat(m); }
    auto it_at(long i) { return std::next(c().begin(), i); }
    auto cit_at(long i) { return std::next(std::as_const(c()).begin(), i); }
    static long rank(const M& m, int k) { return std::distance(m.begin(), m.lower_bound(k)); }
    int cur_root_ = 0;
    int root_count() { return 5; }
    std::string root_name(int k) { static const char* n[] = {"default construction", "initializer list", "iterator range", "Builder", "factory with every key"}; return n[k]; }
    void construct_root(int r)
    {
        model = M{};
        switch (r)
        {
        case 0: R((void)new (slot(0)) C()); return;
        case 1:
            if constexpr (N >= 1 && COPYABLE)
            {
                if constexpr (N >= 2) R((void)new (slot(0)) C{mkpair(N - 1, 1), mkpair(0, 2), mkpair(N - 1, 2)});
                else R((void)new (slot(0)) C{mkpair(0, 1)});
                model[(int)N - 1] = 1;
                if (N >= 2) model[0] = MAP ? 2 : 1;
                return;
            }
            break;
        case 2:
            if constexpr (N >= 1 && COPYABLE)
            {
                std::vector<std::decay_t<decltype(mkpair(0, 1))>> v;
                for (int i = (int)N - 1; i >= 0; i -= 2) { v.push_back(mkpair(i, 1)); model[i] = 1; }
                R((void)new (slot(0)) C(v.begin(), v.end()));
                return;
            }
            break;
        case 3:
            if constexpr (N >= 1 && COPYABLE)
            {
                typename C::Builder b;
                const auto p = mkpair(N / 2, 1);
                R((void)b.insert(p));
                model[(int)N / 2] = 1;
                R((void)b.insert({mkpair(0, 1), mkpair(0, 2)}));
                model.insert({0, 1});
                if constexpr (!MAP)
                {
                    const std::vector<K> one{KS[N - 1]};
                    R((void)b.insert(one));
                    model.insert({(int)N - 1, 1});
                    R((void)b.erase(KS[0]));
                    model.erase(0);
                }
                R((void)new (slot(0)) C(b.build()));
                C t = R(std::move(b).build());
                MC_CHECK(eqv(t, model), SEM, "Builder&&::build");
                C u = R(typename C::Builder().insert(p).insert({p, p}).insert(&p, &p + 1).build());
                M w;
                w[(int)N / 2] = 1;
                MC_CHECK(eqv(u, w), SEM, "chained Builder");
                return;
            }
            break;
        case 4:
            if constexpr (N >= 1 && COPYABLE)
            {
                if constexpr (MAP) R((void)new (slot(0)) C(C::create_with_keys(KS, W(2))));
                else R((void)new (slot(0)) C(C::all()));
                for (int i = 0; i < (int)N; ++i) model[i] = MAP ? 2 : 1;
                return;
            }
            break;
        }
        R((void)new (slot(0)) C());
    }
    struct Id { int k; const void* va; typename C::iterator it; typename C::const_iterator cit; };
    std::vector<Id> ids;
    template <class It>
    static const void* vaddr(It it) { if constexpr (MAP) return std::addressof(it->second); else return std::addressof(*it); }
    void stab_prepare()
    {
        ids.clear();
        for (auto it = c().begin(); it != c().end(); ++it) ids.push_back(Id{kof(*it), vaddr(it), it, it});
    }
    void stab_check(const char* what)
    {
        for (auto& i : ids)
        {
            if (!model.count(i.k)) continue;
            auto it = it_at(rank(model, i.k));
            MC_CHECK(vaddr(it) == i.va, STAB, what, ": value of #", i.k, " moved");
            MC_CHECK(i.it == it && i.cit == it, STAB, what, ": iterator to #", i.k, " no longer denotes it");
            auto n = i.it;
            ++n;
            MC_CHECK(n == std::next(it), STAB | ITER, what, ": kept iterator continues wrongly");
        }
    }
    template <class B, class En>
    void seq_check(B b, En en, const std::vector<std::pair<int, int>>& want, const char* what)
    {
        std::size_t i = 0;
        for (auto it = b; it != en; ++it, ++i)
        {
            if (i >= want.size()) { MC_CHECK(false, ITER | SEM, what, ": visits too many elements"); return; }
            MC_CHECK(kof(*it) == want[i].first && vof(*it) == want[i].second, ITER | SEM, what, ": element ", (long)i);
            if constexpr (MAP) MC_CHECK(std::addressof(it->second) == std::addressof((*it).second) && it->first == (*it).first, ITER, what, ": ->");
            else MC_CHECK(it.operator->() == std::addressof(*it), ITER, what, ": ->");
            auto p = it;
            auto q = p++;
            MC_CHECK(q == it && p == std::next(it) && !(p == it), ITER, what, ": post-increment");
        }
        MC_CHECK(i == want.size(), ITER | SEM, what, ": visits too few elements");
        auto it = en;
        for (i = want.size(); i-- > 0;)
        {
            auto q = it--;
            MC_CHECK(q == std::next(it), ITER, what, ": post-decrement");
            MC_CHECK(kof(*it) == want[i].first && vof(*it) == want[i].second, ITER | SEM, what, ": going back, element ", (long)i);
        }
        MC_CHECK(it == b, ITER | SEM, what, ": going back does not reach the start");
    }
    void observe()
    {
        const C& x = c();
        C& y = c();
        const M& m = model;
        MC_CHECK(R(x.size()) == m.size(), SEM, "size() is ", (long)x.size(), " expected ", (long)m.size());
        MC_CHECK(R(x.empty()) == m.empty(), SEM, "empty()");
        MC_CHECK(R(x.max_size()) == N && C::static_max_size() == N, SEM, "max_size()");
        MC_CHECK(R(is_full(x)) == (m.size() == N), SEM, "is_full()");
        const bool same = eqv(x, m);
        MC_CHECK(same, SEM | ITER, "content by iteration differs from ", show(m));
        if (!same) { g_diverged = true; return; }
        if constexpr (TRACKED) MC_CHECK(g_live_count[0] == m.size(), LIFE, "live elements ", (long)g_live_count[0], " size ", (long)m.size());
        for (int k = 0; k < (int)N; ++k)
        {
            const K key = KS[(std::size_t)k];
            const bool has = m.count(k) != 0;
            MC_CHECK(R(x.contains(key)) == has, SEM, "contains(#", k, ")");
            if constexpr (MAP) MC_CHECK(R(x.count(key)) == (has ? 1u : 0u), SEM, "count(#", k, ")");
            auto ci = R(x.find(key));
            auto i = R(y.find(key));
            MC_CHECK(ci == i, SEM | ITER, "find(#", k, ") const and mutable differ");
            MC_CHECK((ci == x.end()) == !has && (i == y.end()) == !has, SEM, "find(#", k, ")");
            if (has)
            {
                MC_CHECK(i == it_at(rank(m, k)), SEM | ITER, "find(#", k, ") is not the position reached by iteration");
                MC_CHECK(kof(*ci) == k && vof(*ci) == m.at(k), SEM, "find(#", k, ") element");
                if constexpr (MAP)
                {
                    MC_CHECK(val(R(x.at(key))) == m.at(k) && std::addressof(y.at(key)) == std::addressof(x.at(key)), SEM, "at(#", k, ")");
                    MC_CHECK(std::addressof(ci->second) == std::addressof(x.at(key)), SEM, "find and at denote different values");
                    if constexpr (WDEF) MC_CHECK(std::addressof(y[key]) == std::addressof(x.at(key)), SEM, "operator[] and at denote different values");
                }
            }
        }
        const auto order = flat(m);
        const std::vector<std::pair<int, int>> rev(order.rbegin(), order.rend());
        std::vector<typename C::const_iterator> all;
        all.reserve(2 * N + 4);
        RealScope rs;
        MC_CHECK(value_initialised_ok(y.begin()) && value_initialised_ok(x.cbegin()), ITER, "value-initialised iterators");
        MC_CHECK(value_initialised_ok(y.rbegin()) && value_initialised_ok(x.crbegin()), ITER, "value-initialised reverse iterators");
        seq_check(y.begin(), y.end(), order, "begin/end");
        seq_check(x.begin(), x.end(), order, "const begin/end");
        seq_check(x.cbegin(), x.cend(), order, "cbegin/cend");
        seq_check(y.rbegin(), y.rend(), rev, "rbegin/rend");
        seq_check(x.rbegin(), x.rend(), rev, "const rbegin/rend");
        seq_check(x.crbegin(), x.crend(), rev, "crbegin/crend");
        {
            using CI = typename C::const_iterator;
            for (auto it = y.begin(); it != y.end(); ++it) { CI cc = it; MC_CHECK(cc == it, ITER, "iterator -> const_iterator"); all.push_back(cc); }
            all.push_back(CI(y.end()));
            for (std::size_t a = 0; a < all.size(); ++a)
                for (std::size_t b = 0; b < all.size(); ++b)
                {
                    MC_CHECK((all[a] == all[b]) == (a == b), ITER, "iterator equality");
                    MC_CHECK((all[a] != all[b]) == (a != b), ITER, "iterator inequality");
                }
            {
                // a mutable and a const iterator of the same container, every pair of positions
                auto mu = y.begin();
                auto mr = y.rbegin();
                for (std::size_t a = 0; a < all.size(); ++a)
                {
                    auto cr = x.crbegin();
                    for (std::size_t b = 0; b < all.size(); ++b)
                    {
                        MC_CHECK((mu == all[b]) == (a == b) && (all[b] == mu) == (a == b) && (mu != all[b]) == (a != b), ITER, "mixed iterator equality");
                        MC_CHECK((mr == cr) == (a == b) && (cr == mr) == (a == b) && (mr != cr) == (a != b), ITER, "mixed reverse iterator equality");
                        typename C::const_reverse_iterator conv = mr;
                        MC_CHECK((conv == cr) == (a == b), ITER, "conversion of reverse iterator");
                        if (b + 1 < all.size()) ++cr;
                    }
                    if (a + 1 < all.size()) { ++mu; ++mr; }
                }
            }
            std::size_t k = all.size() - 1;
            for (auto r = x.rbegin(); r != x.rend(); ++r, --k) MC_CHECK(r.base() == all[k], ITER, "reverse base()");
            MC_CHECK(x.rend().base() == x.begin() && x.rbegin().base() == x.end(), ITER, "reverse base() at the ends");
            typename C::iterator d1, d2;
            CI d3;
            MC_CHECK(d1 == d2, ITER, "value-initialised iterators compare equal");
            d1 = y.begin();
            MC_CHECK(d1 == y.begin(), ITER, "assignment to a value-initialised iterator");
            (void)d3;
        }
        MC_CHECK(x == x && !(x != x), CMP, "not equal to itself");
        if constexpr (!MAP) MC_CHECK((x <=> x) == 0 && !(x < x) && x <= x, CMP, "self <=>");
        // content decides, not history: one built fresh in ascending order
        g_in_real = false;
        if constexpr (COPYABLE)
        {
            R((void)new (slot(2)) C());
            C& f = *reinterpret_cast<C*>(slot(2));
            for (auto& [k, v] : m) put(f, k, v);
            MC_CHECK(R(f == x) && R(x == f), CMP, "differs from an equal one with another history");
            for (int k = 0; k < (int)N; ++k)
                if (!m.count(k))
                {
                    put(f, k, 1);
                    MC_CHECK(!R(f == x) && R(f != x), CMP, "equal to one with an extra key");
                    R((void)f.erase(KS[(std::size_t)k]));
                    MC_CHECK(R(f == x), CMP, "removing a key again does not restore equality");
                }
            if constexpr (MAP)
                for (auto& [k, v] : m)
                {
                    f.at(KS[(std::size_t)k]) = W(v + 1);
                    MC_CHECK(!R(f == x), CMP, "equal though a value differs");
                    f.at(KS[(std::size_t)k]) = W(v);
                }
            kill(2);
            if constexpr (MAP && !std::is_same_v<C, fc::EnumMap<K, W>> && !TRACKED)
            {
                // same content under another checking policy
                fc::EnumMap<K, W> o;
                for (auto& [k, v] : m) o.try_emplace(KS[(std::size_t)k], W(v));
                MC_CHECK(R(o == x) && R(x == o), CMP, "differs from an equal one with another checking policy");
                for (int k = 0; k < (int)N; ++k)
                    if (!m.count(k))
                    {
                        o.try_emplace(KS[(std::size_t)k], W(1));
                        MC_CHECK(!R(o == x) && !R(x == o), CMP, "equal to one (of another policy) with an extra key");
                        o.erase(KS[(std::size_t)k]);
                    }
            }
        }
        if constexpr (TRIVIAL)
        {
            MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "not trivially copyable");
            std::memcpy(slot(2), slot(0), g_slot_size);
            C& f = *reinterpret_cast<C*>(slot(2));
            MC_CHECK(eqv(f, m) && R(f == x), RELOC, "relocated content differs");
            auto it = f.begin();
            if (!m.empty()) { const auto a = (const unsigned char*)vaddr(it); if (MAP) MC_CHECK(a >= slot(2) && a < slot(2) + g_slot_size, RELOC, "refers to the old location"); }
            wipe_slot(2);
        }
    }
    void kill(int i)
    {
        reinterpret_cast<C*>(slot(i))->~C();
        if constexpr (TRACKED) MC_CHECK(g_live_count[i] == 0, LIFE, "destructor left ", (long)g_live_count[i], " live elements");
        wipe_slot(i);
    }
    static void put(C& x, int k, int v)
    {
        if constexpr (MAP) R((void)x.try_emplace(KS[(std::size_t)k], v));
        else R((void)x.insert(KS[(std::size_t)k]));
    }
    template <class RR>
    void post_insert(RR r, int k, int v, const char* what)
    {
        const bool fresh = model.insert({k, v}).second;
        MC_CHECK(r.second == fresh, SEM, what, ": returned flag");
        check_it(r.first, k, what);
    }
    template <class It>
    void check_it(It it, int k, const char* what)
    {
        const bool ok = it != c().end();
        MC_CHECK(ok, SEM, what, ": returned end()");
        if (!ok) return;
        MC_CHECK(kof(*it) == k && vof(*it) == model.at(k), SEM, what, ": returned iterator denotes another element");
        MC_CHECK(it == it_at(rank(model, k)), SEM | ITER, what, ": returned iterator is not the element's position");
        // it is a working iterator
        long i = rank(model, k);
        auto e = it;
        long steps = 0;
        while (e != c().end() && steps <= (long)N) { ++e; ++steps; }
        MC_CHECK(steps == (long)model.size() - i, SEM | ITER, what, ": iteration from the returned iterator");
    }
    template <class It>
    void check_next(It it, int k, const char* what)  // iterator to the first element with ordinal > k
    {
        auto q = model.upper_bound(k);
        if (q == model.end()) MC_CHECK(it == c().end(), SEM, what, ": must return end()");
        else check_it(it, q->first, what);
    }
    void build()
    {
        op("clear", [](Sys& s) { R(s.c().clear()); s.model.clear(); MC_CHECK(s.c().begin() == s.c().end(), SEM, "clear"); return true; });
        for (int k = 0; k < (int)N; ++k)
        {
            for (int v = 1; v <= (MAP ? NVALS : 1); ++v) inserts(k, v);
            const auto K_ = cat_str("#", k);
            op("erase(key " + K_ + ")", [=](Sys& s)
            {
                s.stab_prepare();
                const auto n = R(s.c().erase(KS[(std::size_t)k]));
                MC_CHECK(n == s.model.erase(k), SEM, "erase(key) count");
                s.stab_check("erase(key)");
                return true;
            });
            op("erase(it " + K_ + ")", [=](Sys& s)
            {
                if (!s.model.count(k)) return false;
                s.stab_prepare();
                auto r = R(s.c().erase(s.it_at(rank(s.model, k))));
                s.model.erase(k);
                s.check_next(r, k, "erase(it)");
                s.stab_check("erase(it)");
                return true;
            });
            op("erase(cit " + K_ + ")", [=](Sys& s)
            {
                if (!s.model.count(k)) return false;
                auto r = R(s.c().erase(s.cit_at(rank(s.model, k))));
                s.model.erase(k);
                s.check_next(r, k, "erase(cit)");
                return true;
            });
            if constexpr (MAP)
            {
                op("at(missing " + K_ + ")", [=](Sys& s) { if (s.model.count(k)) return false; expect_err(EV_OUT_OF_RANGE, k, (long)s.model.size()); R((void)s.c().at(KS[(std::size_t)k])); return true; });
                op("const at(missing " + K_ + ")", [=](Sys& s) { if (s.model.count(k)) return false; expect_err(EV_OUT_OF_RANGE, k, (long)s.model.size()); R((void)std::as_const(s.c()).at(KS[(std::size_t)k])); return true; });
            }
        }
        op("erase(end)", [](Sys& s) { if (!s.model.empty() && false) return false; expect_err(EV_ABORT); R((void)s.c().erase(s.c().end())); return true; });
        op("erase(cend)", [](Sys& s) { expect_err(EV_ABORT); R((void)s.c().erase(s.c().cend())); return true; });
        op("*end()", [](Sys& s) { expect_err(EV_ABORT); R((void)*s.c().end()); return true; });
        op("++end()", [](Sys& s) { expect_err(EV_ABORT); auto it = s.c().end(); R((void)++it); return true; });
        for (long a = 0; a <= (long)N; ++a)
            for (long b = 0; b <= (long)N; ++b)
                op(cat_str("erase(range ", a, ",", b, ")"), [=](Sys& s)
                {
                    const long n = (long)s.model.size();
                    if (a > n || b > n) return false;
                    if (a > b) { expect_err(EV_ABORT); R((void)s.c().erase(s.cit_at(a), s.cit_at(b))); return true; }
                    s.stab_prepare();
                    auto r = R(s.c().erase(s.cit_at(a), s.cit_at(b)));
                    s.model.erase(std::next(s.model.begin(), a), std::next(s.model.begin(), b));
                    if (a == (long)s.model.size()) MC_CHECK(r == s.c().end(), SEM, "erase(range) must return end()");
                    else s.check_it(r, std::next(s.model.begin(), a)->first, "erase(range)");
                    s.stab_check("erase(range)");
                    return true;
                });
        for (int mask = 0; mask < 4; ++mask)
            op(cat_str("erase_if mask ", mask), [=](Sys& s)
            {
                auto pred = [&](const auto& e) { return ((mask >> (kof(e) & 1)) & 1) != 0; };
                auto n = R(erase_if(s.c(), pred));
                std::size_t w = 0;
                for (auto it = s.model.begin(); it != s.model.end();) if ((mask >> (it->first & 1)) & 1) { it = s.model.erase(it); ++w; } else ++it;
                MC_CHECK(n == w, SEM, "erase_if count");
                return true;
            });
        if constexpr (COPYABLE && N >= 1)
        {
            for (int a = 0; a < (int)N; ++a)
                for (int b = 0; b < (int)N; ++b)
                {
                    op(cat_str("insert {#", a, ",#", b, "}"), [=](Sys& s)
                    {
                        s.stab_prepare();
                        R(s.c().insert({mkpair(a, 1), mkpair(b, 2)}));
                        s.model.insert({a, 1});
                        s.model.insert({b, MAP ? 2 : 1});
                        s.stab_check("insert(il)");
                        return true;
                    });
                    op(cat_str("insert range [#", a, ",#", b, "]"), [=](Sys& s)
                    {
                        std::list<std::decay_t<decltype(mkpair(0, 1))>> l;
                        l.push_back(mkpair(a, 1));
                        l.push_back(mkpair(b, 1));
                        R(s.c().insert(l.begin(), l.end()));
                        s.model.insert({a, 1});
                        s.model.insert({b, 1});
                        return true;
                    });
                }
            op("insert {}", [](Sys& s) { R(s.c().insert(std::initializer_list<std::decay_t<decltype(mkpair(0, 1))>>{})); return true; });
        }
        if constexpr (N >= 1) factories();
        copies();
    }
    template <class F>
    void ins(std::string name, int k, int v, F f)
    {
        op(cat_str(name, "(#", k, MAP ? cat_str(",", v) : std::string(), ")"), [=](Sys& s)
        {
            s.stab_prepare();
            f(s);
            s.stab_check(name.c_str());
            return true;
        });
    }
    void inserts(int k, int v)
    {
        const std::size_t kk = (std::size_t)k;
        if constexpr (MAP)
        {
            if constexpr (COPYABLE)
            {
                ins("insert(const&)", k, v, [=](Sys& s) { const auto p = mkpair(k, v); s.post_insert(R(s.c().insert(p)), k, v, "insert"); MC_CHECK(val(p.second) == v, SEM, "insert changed its argument"); });
                ins("emplace(lvalue pair)", k, v, [=](Sys& s) { std::pair<K, W> p(KS[kk], W(v)); s.post_insert(R(s.c().emplace(p)), k, v, "emplace"); MC_CHECK(val(p.second) == v, SEM, "emplace changed its argument"); });
                ins("insert_or_assign(const W&)", k, v, [=](Sys& s)
                {
                    const W w(v);
                    const bool had = s.model.count(k) != 0;
                    auto r = R(s.c().insert_or_assign(KS[kk], w));
                    s.model[k] = v;
                    MC_CHECK(r.second == !had, SEM, "insert_or_assign flag");
                    s.check_it(r.first, k, "insert_or_assign");
                    MC_CHECK(val(w) == v, SEM, "argument changed");
                });
            }
            ins("insert(&&)", k, v, [=](Sys& s)
            {
                auto p = std::pair<const K, W>(KS[kk], W(v));
                const bool had = s.model.count(k) != 0;
                s.post_insert(R(s.c().insert(std::move(p))), k, v, "insert&&");
                if (had) MC_CHECK(val(p.second) == v, SEM, "a failed insert moved from its argument");
            });
            ins("insert_or_assign(W&&)", k, v, [=](Sys& s)
            {
                const bool had = s.model.count(k) != 0;
                auto r = R(s.c().insert_or_assign(KS[kk], W(v)));
                s.model[k] = v;
                MC_CHECK(r.second == !had, SEM, "insert_or_assign flag");
                s.check_it(r.first, k, "insert_or_assign");
            });
            ins("insert_or_assign(hint)", k, v, [=](Sys& s)
            {
                auto r = R(s.c().insert_or_assign(s.c().cbegin(), KS[kk], W(v)));
                s.model[k] = v;
                s.check_it(r, k, "insert_or_assign(hint)");
            });
            ins("try_emplace", k, v, [=](Sys& s)
            {
                W w(v);
                const bool had = s.model.count(k) != 0;
                s.post_insert(R(s.c().try_emplace(KS[kk], std::move(w))), k, v, "try_emplace");
                if (had) MC_CHECK(val(w) == v, SEM, "a failed try_emplace moved from its argument");
            });
            ins("try_emplace(hint)", k, v, [=](Sys& s)
            {
                auto r = R(s.c().try_emplace(s.c().cend(), KS[kk], v));
                const bool fresh = s.model.insert({k, v}).second;
                if constexpr (requires { r.first; r.second; })
                {
                    MC_CHECK(r.second == fresh, SEM, "try_emplace(hint) flag");
                    s.check_it(r.first, k, "try_emplace(hint)");
                }
                else s.check_it(r, k, "try_emplace(hint)");
            });
            ins("emplace(k,v)", k, v, [=](Sys& s) { s.post_insert(R(s.c().emplace(KS[kk], v)), k, v, "emplace"); });
            ins("emplace(rvalue pair)", k, v, [=](Sys& s) { std::pair<K, W> p(KS[kk], W(v)); s.post_insert(R(s.c().emplace(std::move(p))), k, v, "emplace"); });
            ins("emplace(piecewise)", k, v, [=](Sys& s) { s.post_insert(R(s.c().emplace(std::piecewise_construct, std::make_tuple(KS[kk]), std::make_tuple(v))), k, v, "emplace"); });
            ins("emplace_hint", k, v, [=](Sys& s)
            {
                auto r = R(s.c().emplace_hint(s.c().cend(), KS[kk], v));
                s.model.insert({k, v});
                if constexpr (requires { r.first; r.second; }) s.check_it(r.first, k, "emplace_hint");
                else s.check_it(r, k, "emplace_hint");
            });
            ins("at=", k, v, [=](Sys& s)
            {
                if (!s.model.count(k)) return;
                s.c().at(KS[kk]) = W(v);
                s.model[k] = v;
            });
            ins("iterator write", k, v, [=](Sys& s)
            {
                if (!s.model.count(k)) return;
                auto it = s.it_at(rank(s.model, k));
                if (v & 1) it->second = W(v); else (*it).second = W(v);
                s.model[k] = v;
            });
            if constexpr (WDEF)
            {
                ins("[const&]=", k, v, [=](Sys& s) { W& w = R(s.c()[KS[kk]]); MC_CHECK(val(w) == (s.model.count(k) ? s.model[k] : 0), SEM, "operator[] value"); w = W(v); s.model[k] = v; });
                ins("[&&]=", k, v, [=](Sys& s) { K key = KS[kk]; W& w = R(s.c()[std::move(key)]); MC_CHECK(val(w) == (s.model.count(k) ? s.model[k] : 0), SEM, "operator[] value"); w = W(v); s.model[k] = v; });
                if (v == 1)
                {
                    ins("[] touch", k, v, [=](Sys& s) { (void)R(s.c()[KS[kk]]); s.model.insert({k, 0}); });
                    ins("try_emplace()", k, v, [=](Sys& s) { s.post_insert(R(s.c().try_emplace(KS[kk])), k, 0, "try_emplace()"); });
                }
            }
        }
        else
        {
            ins("insert", k, v, [=](Sys& s) { s.post_insert(R(s.c().insert(KS[kk])), k, 1, "insert"); });
            ins("insert(hint)", k, v, [=](Sys& s) { auto r = R(s.c().insert(s.c().cbegin(), KS[kk])); s.model[k] = 1; s.check_it(r, k, "insert(hint)"); });
            ins("emplace", k, v, [=](Sys& s) { s.post_insert(R(s.c().emplace(KS[kk])), k, 1, "emplace"); });
            ins("emplace_hint", k, v, [=](Sys& s) { auto r = R(s.c().emplace_hint(s.c().cend(), KS[kk])); s.model[k] = 1; s.check_it(r, k, "emplace_hint"); });
        }
    }
    void factories()
    {
        if constexpr (!MAP)
        {
            op("= complement_of(*this)", [](Sys& s)
            {
                C t = R(C::complement_of(s.c()));
                M w;
                for (int i = 0; i < (int)N; ++i) if (!s.model.count(i)) w[i] = 1;
                MC_CHECK(eqv(t, w), SEM, "complement_of");
                C u = R(C::complement_of(t));
                MC_CHECK(eqv(u, s.model), SEM, "complement of the complement");
                // the same enumerators listed any number of times, in other orders and containers
                auto same = [](C x, const M& m) { return eqv(x, m); };
                for (int times = 1; times <= 3 + (int)N; times += times < 3 ? 1 : (int)N)
                {
                    std::vector<K> v;
                    std::list<K> l;
                    for (auto& [k, x] : s.model) for (int i = 0; i < times; ++i) { v.insert(v.begin() + (long)(v.size() / 2), KS[(std::size_t)k]); l.push_front(KS[(std::size_t)k]); }
                    MC_CHECK(same(R(C::complement_of(v)), w) && same(R(C::complement_of(l)), w), SEM, "complement_of a container that lists each enumerator ", times, " times");
                    MC_CHECK(same(R(C::copy_of(v)), s.model) && same(R(C::copy_of(l)), s.model), SEM, "copy_of a container that lists each enumerator ", times, " times");
                    MC_CHECK(same(R(typename C::Builder().insert(v).build()), s.model), SEM, "Builder::insert of a container that lists each enumerator ", times, " times");
                    MC_CHECK(same(R(C(l.begin(), l.end())), s.model), SEM, "construction from a range that lists each enumerator ", times, " times");
                    if (!s.model.empty())
                    {
                        std::vector<K> m1 = v;
                        const K lead = m1.back();
                        m1.assign(N + 1, lead);
                        M one;
                        for (int i = 0; i < (int)N; ++i) if (!(KS[(std::size_t)i] == lead)) one[i] = 1;
                        MC_CHECK(same(R(C::complement_of(m1)), one), SEM, "complement_of one enumerator listed many times");
                    }
                }
                R((void)(s.c() = t));
                s.model = w;
                return true;
            });
            op("= copy_of(vector)", [](Sys& s)
            {
                std::vector<K> v;
                for (auto& [k, x] : s.model) { v.insert(v.begin(), KS[(std::size_t)k]); v.push_back(KS[(std::size_t)k]); }
                C t = R(C::copy_of(v));
                MC_CHECK(eqv(t, s.model), SEM, "copy_of(vector)");
                C u = R(C::copy_of(s.c()));
                MC_CHECK(eqv(u, s.model), SEM, "copy_of(set)");
                R((void)(s.c() = t));
                return true;
            });
            op("= all()", [](Sys& s) { R((void)(s.c() = C::all())); s.model.clear(); for (int i = 0; i < (int)N; ++i) s.model[i] = 1; return true; });
            op("= none()", [](Sys& s) { R((void)(s.c() = C::none())); s.model.clear(); return true; });
        }
        else if constexpr (COPYABLE)
        {
            op("create_with_keys(keys of this)", [](Sys& s)
            {
                std::vector<K> v;
                for (auto& [k, x] : s.model) { v.insert(v.begin(), KS[(std::size_t)k]); v.push_back(KS[(std::size_t)k]); }
                C t = R(C::create_with_keys(v, W(2)));
                M w = s.model;
                for (auto& e : w) e.second = 2;
                MC_CHECK(eqv(t, w), SEM, "create_with_keys");
                return true;
            });
            op("create_with_all_entries(content of this)", [](Sys& s)
            {
                std::vector<std::pair<K, W>> v;
                for (auto& [k, x] : s.model) v.insert(v.begin(), std::pair<K, W>(KS[(std::size_t)k], W(x)));
                if (s.model.size() != N) expect_err(EV_MISSING);
                C t = R(C::create_with_all_entries(v));
                MC_CHECK(eqv(t, s.model), SEM, "create_with_all_entries");
                return true;
            });
            op("create_with_all_entries(with a duplicate)", [](Sys& s)
            {
                if (s.model.empty()) return false;
                std::vector<std::pair<K, W>> v;
                for (auto& [k, x] : s.model) v.push_back(std::pair<K, W>(KS[(std::size_t)k], W(x)));
                v.push_back(v.front());
                expect_err(EV_DUP);
                C t = R(C::create_with_all_entries(v));
                return true;
            });
        }
    }
    void poke(C& x, M m, const char* what)
    {
        for (int k = 0; k < (int)N; ++k)
        {
            if (m.count(k)) { R((void)x.erase(KS[(std::size_t)k])); m.erase(k); }
            else { put(x, k, 1); m[k] = 1; }
            MC_CHECK(eqv(x, m), COPY | SEM, what, ": broken after toggling #", k);
        }
    }
    void copies()
    {
        if constexpr (COPYABLE)
        {
            op("copy-construct, use the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                MC_CHECK(eqv(s.c(), s.model) && eqv(s.d(), s.model), COPY | SEM, "copy construction");
                MC_CHECK(R(s.c() == s.d()), COPY | CMP, "copy != original");
                s.poke(s.d(), s.model, "copy");
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source");
                s.kill(1);
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "destroying the copy changed the source");
                return true;
            });
            op("self copy-assign", [](Sys& s) { C& a = s.c(); const C& b = s.c(); C& r = R(a = b); MC_CHECK(&r == &a, COPY | SEM, "operator= must return *this"); return true; });
        }
        op("self move-assign", [](Sys& s) { C& a = s.c(); C& b = s.c(); R((void)(a = std::move(b))); return true; });
        op("move-construct there and back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "move construction lost content");
            R(s.c().clear());
            s.poke(s.c(), M{}, "moved-from");
            s.kill(0);
            R((void)new (slot(0)) C(std::move(s.d())));
            R(s.d().clear());
            s.kill(1);
            return true;
        });
        for (int k = 0; k < 4; ++k)
        {
            auto preset = [k](C& x)
            {
                M w;
                for (int i = 0; i < (int)N; ++i) if (k == 1 ? i == 0 : k == 2 ? true : k == 3 ? i == (int)N - 1 : false) { put(x, i, 1); w[i] = 1; }
                return w;
            };
            if constexpr (COPYABLE)
                op(cat_str("copy-assign from preset ", k), [=](Sys& s)
                {
                    R((void)new (slot(1)) C());
                    M w = preset(s.d());
                    R((void)(s.c() = std::as_const(s.d())));
                    MC_CHECK(eqv(s.d(), w), COPY | SEM, "copy assignment changed the source");
                    s.model = w;
                    s.kill(1);
                    return true;
                });
            op(cat_str("move-assign from preset ", k), [=](Sys& s)
            {
                R((void)new (slot(1)) C());
                M w = preset(s.d());
                R((void)(s.c() = std::move(s.d())));
                s.model = w;
                MC_CHECK(eqv(s.c(), w), COPY | SEM, "move assignment lost content");
                R(s.d().clear());
                s.poke(s.d(), M{}, "moved-from");
                s.kill(1);
                return true;
            });
            op(cat_str("swap with preset ", k), [=](Sys& s)
            {
                R((void)new (slot(1)) C());
                M w = preset(s.d());
                const M old = s.model;
                { using std::swap; R(swap(s.c(), s.d())); }
                s.model = w;
                MC_CHECK(eqv(s.d(), old), COPY | SEM, "swap lost content");
                s.poke(s.d(), old, "swapped");
                s.kill(1);
                return true;
            });
        }
    }
    const char* pair_assign_name(int k) { static const char* n[] = {"copy-assign", "move-assign", "swap"}; return n[k]; }
    // leaves the result in slot 0 (its model is that of the operand), slot 1 destroyed
    bool pair_assign(int k)
    {
        if (k == 0)
        {
            if constexpr (std::is_copy_assignable_v<C> && COPYABLE) R((void)(c() = std::as_const(d())));
            else return false;
        }
        else if (k == 1) R((void)(c() = std::move(d())));
        else { using std::swap; R(swap(c(), d())); }
        kill(1);
        return true;
    }
    bool pair_ops(const M&, const M&) { return true; }
    int pair_op_count() { return 4; }
    const char* pair_op_name(int k) { static const char* n[] = {"compare", "copy-assign", "move-assign", "swap"}; return n[k]; }
    bool pair_op(int k, const M& mx, const M& my)
    {
        switch (k)
        {
        case 0:
        {
            if ((g_mask & CMP) == 0) return false;
            const C& x = c();
            const C& y = d();
            MC_CHECK((R(x == y)) == (mx == my) && (R(x != y)) == (mx != my), CMP, "==");
            if constexpr (!MAP && requires { x < y; })
            {
                std::vector<K> p, q;
                for (auto& e : mx) p.push_back(KS[(std::size_t)e.first]);
                for (auto& e : my) q.push_back(KS[(std::size_t)e.first]);
                MC_CHECK((R(x <=> y)) == (p <=> q), CMP, "<=>");
                MC_CHECK((R(x < y)) == (p < q) && (R(x > y)) == (p > q) && (R(x <= y)) == (p <= q) && (R(x >= y)) == (p >= q), CMP, "ordering");
            }
            wipe_slot(1);
            return true;
        }
        case 1:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            if constexpr (COPYABLE)
            {
                R((void)(c() = std::as_const(d())));
                MC_CHECK(eqv(d(), my) && eqv(c(), my), COPY, "copy-assign");
                poke(c(), my, "copy-assigned");
                MC_CHECK(eqv(d(), my), COPY, "using the copy changed the source");
                break;
            }
            else return false;
        case 2:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            R((void)(c() = std::move(d())));
            MC_CHECK(eqv(c(), my), COPY, "move-assign");
            R(d().clear());
            poke(d(), M{}, "moved-from");
            break;
        case 3:
        {
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            using std::swap;
            R(swap(c(), d()));
            MC_CHECK(eqv(c(), my) && eqv(d(), mx), COPY, "swap");
            break;
        }
        }
        kill(0);
        kill(1);
        model.clear();
        return true;
    }
};

int main(int argc, char** argv)
{
    KS = en::KEYS<GK>();
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(GC));
#ifdef POLICY_ABORT
    g_abort_policy = true;
#endif
    g_program = PROG;
    MC_CHECK(KS.size() == N, SEM, "number of enumerators");
    using Sys = SysT<GC, GK, GW, MAPC>;
    Sys s;
    s.build();
    if (!MAPC) { s.learn_noise(); g_opt.abstract = true; }
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
