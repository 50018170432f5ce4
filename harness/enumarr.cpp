// EnumArray against std::array.  -DENUM=en::X -DVAL=<type> -DNV=<values per element>
#include "mc.hpp"
#include "fixed_containers/enum_array.hpp"
#include "enums.hpp"
using namespace mc;
namespace fc = fixed_containers;
using GK = ENUM;
using GW = VAL;
#ifndef NV
#define NV 3
#endif
constexpr std::size_t N = fc::rich_enums::EnumAdapter<GK>::count();
constexpr bool WDEF = std::is_default_constructible_v<GW>;
static std::vector<GK> KS;
template <class C, class K, class W>
struct SysT
{
    using Sys = SysT;
    using M = std::vector<int>;
    static constexpr bool TRACKED = is_tracked<W>;
    static constexpr bool TRIVIAL = std::is_trivially_copyable_v<W>;
    static constexpr bool RELOCATABLE = TRIVIAL;
    M model;
    std::vector<Op<Sys>> ops;
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }
    std::string ser(const M& m) { std::string o; for (int v : m) o += (char)v; return o; }
    M deser(const char* p, std::size_t n) { return M(p, p + n); }
    static std::string show(const M& m) { std::string o = "["; for (int v : m) o += std::to_string(v) + " "; return o + "]"; }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    using P = std::pair<const K, W>;
    int root_count() { return WDEF ? 4 : 1; }
    std::string root_name(int k) { static const char* n[] = {WDEF ? "default construction" : "full array construction", "initializer list", "from_range(map)", "from_range(vector of pairs)"}; return n[k]; }
    template <std::size_t... I>
    void strict(int at, std::index_sequence<I...>, bool good)
    {
        const P list[N]{P(KS[good ? I : N - 1 - I], W((int)I % NV))...};
        R((void)new (slot(at)) C(list));
    }
    void construct_root(int r)
    {
        model.assign(N, 0);
        if constexpr (WDEF)
        {
            if (r == 0) R((void)new (slot(0)) C());
            if (r == 1)
            {
                if constexpr (N >= 2)
                {
                    R((void)new (slot(0)) C{P(KS[N - 1], W(2)), P(KS[0], W(1)), P(KS[N - 1], W(1))});
                    model[N - 1] = 1;
                    model[0] = 1;
                }
                else R((void)new (slot(0)) C());
            }
            if (r == 2)
            {
                std::map<int, int> dummy;
                std::vector<std::pair<K, W>> v;
                for (std::size_t i = 0; i < N; ++i) { v.push_back({KS[i], W((int)(i + 1) % NV)}); model[i] = (int)(i + 1) % NV; }
                R((void)new (slot(0)) C(fc::std_transition::from_range, v));
            }
            if (r == 3)
            {
                std::vector<std::pair<K, W>> v;
                for (std::size_t i = N; i-- > 1;) { v.push_back({KS[i], W(2 % NV)}); model[i] = 2 % NV; }
                R((void)new (slot(0)) C(fc::std_transition::from_range, v));
            }
        }
        else
        {
            strict(0, std::make_index_sequence<N>{}, true);
            for (std::size_t i = 0; i < N; ++i) model[i] = (int)i % NV;
        }
    }
    template <class X>
    static bool eqv(const X& x, const M& m)
    {
        if (x.size() != m.size()) return false;
        for (std::size_t i = 0; i < N; ++i) if (val(x[KS[i]]) != m[i]) return false;
        return true;
    }
    void observe()
    {
        const C& x = c();
        C& y = c();
        const M& m = model;
        MC_CHECK(R(x.size()) == N && R(x.max_size()) == N && R(x.empty()) == (N == 0), SEM, "size/max_size/empty");
        const bool same = eqv(x, m);
        MC_CHECK(same, SEM, "content differs from ", show(m));
        if (!same) { g_diverged = true; return; }
        if constexpr (TRACKED) MC_CHECK(g_live_count[0] == N, LIFE, "live elements");
        MC_CHECK(std::equal(KS.begin(), KS.end(), x.labels().begin(), x.labels().end()), SEM, "labels()");
        for (std::size_t i = 0; i < N; ++i)
        {
            const auto* p = R(x.data()) + i;
            MC_CHECK(val(R(x.at(KS[i]))) == m[i], SEM, "at");
            MC_CHECK(&R(x.at(KS[i])) == p && &R(y.at(KS[i])) == p && &R(y[KS[i]]) == p && &R(x[KS[i]]) == p && R(y.data()) + i == p, SEM, "accessors denote different elements");
        }
        if (N > 0) MC_CHECK(&x.front() == x.data() && &y.front() == x.data() && &x.back() == x.data() + (N - 1) && &y.back() == x.data() + (N - 1), SEM, "front/back");
        auto walk = [&](auto b, auto e, bool rev, const char* what)
        {
            std::size_t i = 0;
            for (auto it = b; it != e && i <= N; ++it, ++i) MC_CHECK(i < N && &*it == x.data() + (rev ? N - 1 - i : i), ITER | SEM, what);
            MC_CHECK(i == N, ITER | SEM, what, " length");
        };
        walk(x.begin(), x.end(), false, "begin/end");
        walk(y.begin(), y.end(), false, "mutable begin/end");
        walk(x.cbegin(), x.cend(), false, "cbegin/cend");
        walk(x.rbegin(), x.rend(), true, "rbegin/rend");
        walk(y.rbegin(), y.rend(), true, "mutable rbegin/rend");
        walk(x.crbegin(), x.crend(), true, "crbegin/crend");
        MC_CHECK(R(x == x) && !R(x != x) && !R(x < x) && R((x <=> x) == 0), CMP, "self comparison");
        if constexpr (TRIVIAL)
        {
            MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "not trivially copyable");
            std::memcpy(slot(2), slot(0), g_slot_size);
            C& f = *reinterpret_cast<C*>(slot(2));
            MC_CHECK(eqv(f, m) && (N == 0 || (unsigned char*)f.data() == slot(2)), RELOC, "relocated content");
            wipe_slot(2);
        }
    }
    void kill(int i)
    {
        reinterpret_cast<C*>(slot(i))->~C();
        if constexpr (TRACKED) MC_CHECK(g_live_count[i] == 0, LIFE, "destructor left live elements");
        wipe_slot(i);
    }
    void build()
    {
        for (int v = 0; v < NV; ++v)
        {
            for (std::size_t i = 0; i < N; ++i)
            {
                op(cat_str("at(#", (long)i, ")=", v), [=](Sys& s) { W w(v); R((void)(s.c().at(KS[i]) = std::move(w))); s.model[i] = v; return true; });
                op(cat_str("[#", (long)i, "]=", v), [=](Sys& s) { W w(v); R((void)(s.c()[KS[i]] = std::move(w))); s.model[i] = v; return true; });
                op(cat_str("*(begin+", (long)i, ")=", v), [=](Sys& s) { W w(v); R((void)(*(s.c().begin() + (long)i) = std::move(w))); s.model[i] = v; return true; });
                op(cat_str("*(rbegin+", (long)i, ")=", v), [=](Sys& s) { W w(v); R((void)(*(s.c().rbegin() + (long)i) = std::move(w))); s.model[N - 1 - i] = v; return true; });
                op(cat_str("data[", (long)i, "]=", v), [=](Sys& s) { W w(v); R((void)(s.c().data()[i] = std::move(w))); s.model[i] = v; return true; });
            }
            if constexpr (std::is_copy_constructible_v<W>)
                op(cat_str("fill(", v, ")"), [=](Sys& s) { const W w(v); R(s.c().fill(w)); s.model.assign(N, v); return true; });
            if constexpr (N > 0)
            {
                op(cat_str("front()=", v), [=](Sys& s) { s.c().front() = W(v); s.model.front() = v; return true; });
                op(cat_str("back()=", v), [=](Sys& s) { s.c().back() = W(v); s.model.back() = v; return true; });
            }
        }
        if constexpr (std::is_copy_constructible_v<W>)
        {
            op("copy-construct, use the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                MC_CHECK(R(s.c() == s.d()) && eqv(s.d(), s.model), COPY | CMP | SEM, "copy");
                for (std::size_t i = 0; i < N; ++i) { s.d()[KS[i]] = W(7); MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source"); }
                for (std::size_t i = 0; i < N; ++i) MC_CHECK(val(s.d()[KS[i]]) == 7, COPY | SEM, "copy not writable");
                R((void)(s.d() = std::as_const(s.c())));
                MC_CHECK(eqv(s.d(), s.model) && eqv(s.c(), s.model), COPY | SEM, "copy-assign");
                s.kill(1);
                return true;
            });
            op("swap with another", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                M w = s.model;
                for (std::size_t i = 0; i < N; ++i) { w[i] = (int)(i + 1) % NV; s.d()[KS[i]] = W(w[i]); }
                R(s.c().swap(s.d()));
                MC_CHECK(eqv(s.d(), s.model) && eqv(s.c(), w), COPY | SEM, "member swap");
                using std::swap;
                R(swap(s.c(), s.d()));
                MC_CHECK(eqv(s.c(), s.model) && eqv(s.d(), w), COPY | SEM, "swap");
                R(s.c().swap(s.d()));
                s.model = w;
                s.kill(1);
                return true;
            });
        }
        op("move-construct there and back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "move construction lost content");
            R((void)(s.c() = std::move(s.d())));
            s.kill(1);
            return true;
        });
        if constexpr (!WDEF && N >= 2)
            op("full array construction in the wrong order", [](Sys& s) { expect_err(EV_ABORT); s.strict(1, std::make_index_sequence<N>{}, false); return true; });
    }
    bool pair_ops(const M&, const M&) { return true; }
    int pair_op_count() { return 1; }
    const char* pair_op_name(int) { return "compare"; }
    bool pair_op(int, const M& mx, const M& my)
    {
        const C& x = c();
        const C& y = d();
        MC_CHECK((R(x == y)) == (mx == my) && (R(x != y)) == (mx != my), CMP, "==");
        MC_CHECK((R(x <=> y)) == (mx <=> my), CMP, "<=>");
        MC_CHECK((R(x < y)) == (mx < my) && (R(x > y)) == (mx > my) && (R(x <= y)) == (mx <= my) && (R(x >= y)) == (mx >= my), CMP, "ordering");
        wipe_slot(1);
        return true;
    }
};
int main(int argc, char** argv)
{
    using C = fc::EnumArray<GK, GW>;
    KS = en::KEYS<GK>();
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(C));
    g_program = PROG;
    using Sys = SysT<C, GK, GW>;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
