// Enum containers over many enumerators (more than one machine word, more than an 8-bit index): every pair of keys (i, j) and the sets they
// span ({i,j}, [i,j), everything but those), built, changed, walked, copied and compared against std::set / std::map of ordinals.
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/enum_utils.hpp"
#include <array>
#include <map>
#include <numeric>
#include <set>
#include <vector>
using namespace mc;
namespace fc = fixed_containers;
#define X10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
enum class Wide : std::int8_t { FIRST = -41, X10(A), X10(B), X10(C), X10(D), X10(E), X10(F), X10(G), X10(H), X10(I), X10(J), X10(K), X10(L), X10(M), LAST = 100 };
enum class Huge : std::uint16_t {};
template <>
struct fixed_containers::rich_enums::EnumAdapter<Huge>
{
    using Enum = Huge;
    static constexpr std::size_t N = 300;
    static constexpr std::array<Huge, N> VALS = [] { std::array<Huge, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = static_cast<Huge>(60000 - 7 * i); return r; }();
    static constexpr std::size_t count() { return N; }
    static constexpr const std::array<Huge, N>& values() { return VALS; }
    static constexpr std::size_t ordinal(const Huge& k) { return (60000 - static_cast<std::size_t>(k)) / 7; }
    static constexpr std::string_view to_string(const Huge&) { return "?"; }
};
struct Nt { int v; Nt(int i = 0) : v(i) {} Nt(const Nt& o) : v(o.v) {} Nt(Nt&& o) noexcept : v(o.v) { o.v = -9; } Nt& operator=(const Nt& o) { v = o.v; return *this; } Nt& operator=(Nt&& o) noexcept { v = o.v; if (this != &o) o.v = -9; return *this; } ~Nt() { v = -7; } bool operator==(const Nt& o) const { return v == o.v; } };
static int val(const Nt& x) { return x.v; }
using mc::val;
// of 300 keys only the pairs of which one lies at an edge (of a word, of a byte, of the enum)
static bool skip(int n, int i, int j)
{
    auto edge = [&](int k) { return k <= 1 || (k >= 63 && k <= 64) || (k >= 127 && k <= 128) || (k >= 254 && k <= 257) || k >= n - 1; };
    return n > 200 && !edge(i) && !edge(j);
}
template <class F> static void item(const std::string& what, F&& f)
{
    g_current_op = what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const Event ev = guarded([&] { f(); });
    if (ev.kind != EV_NONE) fail(SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
    MC_CHECK(g_san_reports == san0, SEM | LIFE | CRASH, "memory error / undefined behaviour");
}
template <class K> static std::vector<K> keys();
template <> std::vector<Wide> keys() { std::vector<Wide> r{Wide::FIRST}; for (int i = -40; i < 90; ++i) r.push_back((Wide)i); r.push_back(Wide::LAST); return r; }
template <> std::vector<Huge> keys() { std::vector<Huge> r; for (int i = 0; i < 300; ++i) r.push_back((Huge)(60000 - 7 * i)); return r; }
#if KIND == 0
using O = std::set<int>;
template <class K> static void check(const fc::EnumSet<K>& s, const O& m, const std::vector<K>& ks, const char* what)
{
    MC_CHECK(s.size() == m.size() && s.empty() == m.empty() && is_full(s) == (m.size() == ks.size()), SEM, what, ": size ", (long)s.size(), ", expected ", (long)m.size());
    auto it = s.begin();
    for (int o : m) { MC_CHECK(it != s.end() && *it == ks[(std::size_t)o], SEM | ITER, what, ": iteration does not show key #", o); ++it; }
    MC_CHECK(it == s.end(), SEM | ITER, what, ": iteration shows more");
    auto rt = s.rbegin();
    for (auto o = m.rbegin(); o != m.rend(); ++o, ++rt) MC_CHECK(rt != s.rend() && *rt == ks[(std::size_t)*o], SEM | ITER, what, ": reverse iteration does not show key #", *o);
    MC_CHECK(rt == s.rend(), SEM | ITER, what, ": reverse iteration shows more");
}
template <class K> static void deep(const fc::EnumSet<K>& s, const O& m, const std::vector<K>& ks, const char* what)
{
    check(s, m, ks, what);
    for (std::size_t o = 0; o < ks.size(); ++o)
    {
        const bool in = m.count((int)o) != 0;
        const auto f = s.find(ks[o]);
        MC_CHECK(s.contains(ks[o]) == in && (in ? f != s.end() && *f == ks[o] : f == s.end()), SEM, what, ": lookup of key #", (long)o);
    }
}
template <class K> static void sets(const char* name)
{
    const auto ks = keys<K>();
    const int n = (int)ks.size();
    O all;
    for (int i = 0; i < n; ++i) all.insert(i);
    item(cat_str(name, ": all / none"), [&]
    {
        MC_CHECK(fc::EnumSet<K>::static_max_size() == ks.size(), SEM, "static_max_size");
        deep<K>(fc::EnumSet<K>::all(), all, ks, "all()");
        deep<K>(fc::EnumSet<K>::none(), {}, ks, "none()");
        deep<K>(fc::EnumSet<K>::complement_of(fc::EnumSet<K>::none()), all, ks, "complement of none");
        deep<K>(fc::EnumSet<K>::complement_of(fc::EnumSet<K>::all()), {}, ks, "complement of all");
    });
    for (int i = 0; i < n; ++i)
        for (int j = i; j <= n; ++j)
        {
            if (skip(n, i, j)) continue;
            ++g_states;
            item(cat_str(name, ": keys #", i, " and #", j), [&]
            {
                const K a = ks[(std::size_t)i];
                O m{i};
                fc::EnumSet<K> s{a};
                if (j < n)
                {
                    const K b = ks[(std::size_t)j];
                    auto [it, fresh] = s.insert(b);
                    MC_CHECK(fresh == (i != j) && *it == b, SEM, "insert of the second key");
                    m.insert(j);
                }
                (j % 16 == 0 || j == i + 1) ? deep(s, m, ks, "{i,j}") : check(s, m, ks, "{i,j}");
                fc::EnumSet<K> rest = fc::EnumSet<K>::complement_of(s);
                O mr = all;
                for (int o : m) mr.erase(o);
                check(rest, mr, ks, "complement of {i,j}");
                MC_CHECK(!(s == rest), CMP | SEM, "a set equals its complement");
                // the range [i, j)
                fc::EnumSet<K> span(ks.begin() + i, ks.begin() + j);
                O ms;
                for (int o = i; o < j; ++o) ms.insert(o);
                check(span, ms, ks, "[i,j)");
                fc::EnumSet<K> cut = fc::EnumSet<K>::all();
                auto from = cut.find(a);
                auto to = j < n ? cut.find(ks[(std::size_t)j]) : cut.end();
                auto nx = cut.erase(from, to);
                O mc_ = all;
                for (int o = i; o < j; ++o) mc_.erase(o);
                check(cut, mc_, ks, "all minus [i,j)");
                MC_CHECK(j < n ? nx != cut.end() && *nx == ks[(std::size_t)j] : nx == cut.end(), SEM, "erase(range) returns another position");
                MC_CHECK(cut == fc::EnumSet<K>::complement_of(span), CMP | SEM, "all minus [i,j) differs from the complement of [i,j)");
                auto copy = cut;
                MC_CHECK(copy == cut, CMP | COPY | SEM, "copy differs");
                const auto gone = cut.erase(ks[(std::size_t)(j < n ? j : 0)]);
                const int victim = j < n ? j : 0;
                MC_CHECK(gone == mc_.erase(victim), SEM, "erase(key) result");
                check(cut, mc_, ks, "after erase(key)");
                MC_CHECK((copy == cut) == (gone == 0), CMP | SEM, "comparison after erasing one key");
                const auto removed = fc::erase_if(copy, [&](const K& k) { return k == a || (j < n && k == ks[(std::size_t)j]); });
                O mcopy = all;
                for (int o = i; o < j; ++o) mcopy.erase(o);
                std::size_t want = mcopy.erase(i);
                if (j < n) want += mcopy.erase(j);
                MC_CHECK(removed == want, SEM, "erase_if result");
                check(copy, mcopy, ks, "erase_if");
            });
        }
}
#elif KIND == 1
using O = std::map<int, int>;
template <class K, class V> static void check(const fc::EnumMap<K, V>& s, const O& m, const std::vector<K>& ks, const char* what)
{
    MC_CHECK(s.size() == m.size() && s.empty() == m.empty() && is_full(s) == (m.size() == ks.size()), SEM, what, ": size ", (long)s.size(), ", expected ", (long)m.size());
    auto it = s.begin();
    for (auto& [o, v] : m) { MC_CHECK(it != s.end() && it->first == ks[(std::size_t)o] && val(it->second) == v, SEM | ITER, what, ": iteration does not show key #", o); ++it; }
    MC_CHECK(it == s.end(), SEM | ITER, what, ": iteration shows more");
    auto rt = s.rbegin();
    for (auto o = m.rbegin(); o != m.rend(); ++o, ++rt) MC_CHECK(rt != s.rend() && rt->first == ks[(std::size_t)o->first] && val(rt->second) == o->second, SEM | ITER, what, ": reverse iteration does not show key #", o->first);
    MC_CHECK(rt == s.rend(), SEM | ITER, what, ": reverse iteration shows more");
}
template <class K, class V> static void deep(fc::EnumMap<K, V>& s, const O& m, const std::vector<K>& ks, const char* what)
{
    check(s, m, ks, what);
    for (std::size_t o = 0; o < ks.size(); ++o)
    {
        const bool in = m.count((int)o) != 0;
        const auto f = s.find(ks[o]);
        MC_CHECK(s.contains(ks[o]) == in && s.count(ks[o]) == in && (in ? f != s.end() && f->first == ks[o] && val(f->second) == m.at((int)o) && val(s.at(ks[o])) == m.at((int)o) : f == s.end()), SEM, what, ": lookup of key #", (long)o);
    }
}
template <class K, class V> static void maps(const char* name)
{
    const auto ks = keys<K>();
    const int n = (int)ks.size();
    O all;
    for (int i = 0; i < n; ++i) all[i] = 1000 + i;
    fc::EnumMap<K, V> full;
    item(cat_str(name, ": every key"), [&]
    {
        for (int i = n; i-- > 0;) MC_CHECK(full.try_emplace(ks[(std::size_t)i], 1000 + i).second, SEM, "try_emplace of a new key");
        deep(full, all, ks, "every key");
        std::vector<std::pair<const K, V>> l;
        for (int i = 0; i < n; ++i) l.emplace_back(ks[(std::size_t)((i * 7) % n)], 1000 + (i * 7) % n);
        auto c = fc::EnumMap<K, V>::create_with_all_entries(l);
        deep(c, all, ks, "create_with_all_entries");
        MC_CHECK(c == full, CMP | SEM, "the same entries inserted in another order compare unequal");
        auto k = fc::EnumMap<K, V>::create_with_keys(ks, V(4));
        O four;
        for (int i = 0; i < n; ++i) four[i] = 4;
        deep(k, four, ks, "create_with_keys");
    });
    for (int i = 0; i < n; ++i)
        for (int j = i; j <= n; ++j)
        {
            if (skip(n, i, j)) continue;
            ++g_states;
            item(cat_str(name, ": keys #", i, " and #", j), [&]
            {
                const K a = ks[(std::size_t)i];
                O m{{i, 5}};
                fc::EnumMap<K, V> s;
                s[a] = V(5);
                if (j < n)
                {
                    const K b = ks[(std::size_t)j];
                    auto [it, fresh] = s.insert_or_assign(b, V(6));
                    MC_CHECK(fresh == (i != j) && it->first == b && val(it->second) == 6, SEM, "insert_or_assign of the second key");
                    m[j] = 6;
                }
                (j % 16 == 0 || j == i + 1) ? deep(s, m, ks, "{i,j}") : check(s, m, ks, "{i,j}");
                auto cut = full;
                MC_CHECK(cut == full, CMP | COPY | SEM, "copy differs");
                auto from = cut.find(a);
                auto to = j < n ? cut.find(ks[(std::size_t)j]) : cut.end();
                auto nx = cut.erase(from, to);
                O mm = all;
                for (int o = i; o < j; ++o) mm.erase(o);
                check(cut, mm, ks, "all minus [i,j)");
                MC_CHECK(j < n ? nx != cut.end() && nx->first == ks[(std::size_t)j] : nx == cut.end(), SEM, "erase(range) returns another position");
                MC_CHECK((cut == full) == (i == j), CMP | SEM, "comparison with the full map");
                auto moved = std::move(cut);
                check(moved, mm, ks, "moved");
                if (j < n)
                {
                    moved.at(ks[(std::size_t)j]) = V(8);
                    mm[j] = 8;
                    check(moved, mm, ks, "after at() = 8");
                    if (i == j) MC_CHECK(!(moved == full), CMP | SEM, "differs in the value of key #", j);
                    MC_CHECK(moved.erase(ks[(std::size_t)j]) == 1 && moved.erase(ks[(std::size_t)j]) == 0, SEM, "erase(key) result");
                    mm.erase(j);
                    check(moved, mm, ks, "after erase(key)");
                }
                s = moved;
                check(s, mm, ks, "copy-assigned");
                s.insert(full.begin(), full.end());
                check(s, all, ks, "insert of every entry");
                s.clear();
                check(s, {}, ks, "clear");
            });
        }
}
#else
template <class K, class V> static void arrays(const char* name)
{
    const auto ks = keys<K>();
    const int n = (int)ks.size();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            if (skip(n, i, j)) continue;
            ++g_states;
            item(cat_str(name, ": keys #", i, " and #", j), [&]
            {
                fc::EnumArray<K, V> a;
                a.fill(V(1));
                a[ks[(std::size_t)i]] = V(2);
                auto b = a;
                a.at(ks[(std::size_t)j]) = V(3);
                MC_CHECK((int)a.size() == n && (int)a.labels().size() == n, SEM, "size");
                int o = 0;
                for (auto& x : a) { MC_CHECK(val(x) == (o == j ? 3 : o == i ? 2 : 1), SEM, "value of key #", o); ++o; }
                MC_CHECK(o == n, SEM, "iteration ends early");
                MC_CHECK(val(a[ks[(std::size_t)i]]) == (i == j ? 3 : 2) && val(std::as_const(a)[ks[(std::size_t)j]]) == 3, SEM, "operator[]");
                MC_CHECK(!(a == b), CMP | SEM, "arrays that differ at key #", j, " compare equal");
                a.swap(b);
                MC_CHECK(val(b.at(ks[(std::size_t)j])) == 3 && val(a.at(ks[(std::size_t)i])) == 2, COPY | SEM, "swap");
            });
        }
    item(cat_str(name, ": labels"), [&]
    {
        fc::EnumArray<K, V> a;
        for (int i = 0; i < n; ++i) MC_CHECK(a.labels()[(std::size_t)i] == ks[(std::size_t)i], SEM, "label #", i);
        for (int i = 0; i < n; ++i) a[ks[(std::size_t)i]] = V(i);
        int o = n;
        for (auto it = a.rbegin(); it != a.rend(); ++it) MC_CHECK(val(*it) == --o, SEM, "reverse iteration at key #", o);
        using A = fc::rich_enums::EnumAdapter<K>;
        MC_CHECK((int)A::count() == n && (int)A::values().size() == n, SEM, "count of the adapter");
        for (int i = 0; i < n; ++i) MC_CHECK(A::ordinal(ks[(std::size_t)i]) == (std::size_t)i && A::values()[(std::size_t)i] == ks[(std::size_t)i], SEM, "ordinal of key #", i);
    });
}
#endif
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if KIND == 0
    sets<Wide>("EnumSet of 132");
    sets<Huge>("EnumSet of 300");
#elif KIND == 1
    maps<Wide, int>("EnumMap of 132");
    maps<Wide, Nt>("EnumMap of 132, non-trivial");
    maps<Huge, int>("EnumMap of 300");
#else
    arrays<Wide, int>("EnumArray of 132");
    arrays<Huge, Nt>("EnumArray of 300");
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
