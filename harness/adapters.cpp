// FixedStack / FixedQueue / FixedCircularQueue against a std::vector.  -DAD_STACK | -DAD_QUEUE | -DAD_CQUEUE
// -DELEM=<type> -DCAP=<n> -DNVAL=<n> [-DPOLICY_ABORT]
#include "mc.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
using namespace mc;
namespace fc = fixed_containers;
using E0 = ELEM;
#ifdef POLICY_ABORT
#define CHK_(n) fc::customize::SequenceContainerAbortChecking<E0, n>
#else
#define CHK_(n) RecSeqChecking<E0>
#endif
#if defined(AD_STACK)
template <std::size_t N> using CT = fc::FixedStack<E0, N, CHK_(N)>;
constexpr bool STACK = true, CIRC = false;
#elif defined(AD_QUEUE)
template <std::size_t N> using CT = fc::FixedQueue<E0, N, CHK_(N)>;
constexpr bool STACK = false, CIRC = false;
#else
template <std::size_t N> using CT = fc::FixedCircularQueue<E0, N, CHK_(N)>;
constexpr bool STACK = false, CIRC = true;
#endif
template <class C, class C2, class E>
struct SysT
{
    using Sys = SysT;
    using M = std::vector<int>;  // oldest first
    static constexpr bool TRACKED = is_tracked<E>;
    static constexpr bool COPYABLE = std::is_copy_constructible_v<E>;
    static constexpr bool TRIVIAL = std::is_trivially_copyable_v<E>;
    static constexpr bool RELOCATABLE = TRIVIAL;
    M model;
    std::vector<Op<Sys>> ops;
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }
    std::string ser(const M& m) { std::string o; for (int v : m) o += (char)v; return o; }
    M deser(const char* p, std::size_t n) { return M(p, p + n); }
    static std::string show(const M& m) { std::string o = "["; for (int v : m) o += std::to_string(v) + " "; return o + "]"; }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    // Where the content sits in the underlying ring is abstracted to the next exit position.
    std::string abs_key()
    {
        if (model.empty()) return std::string("e") + std::string(reinterpret_cast<const char*>(slot(0)), 0);
        std::string o = "p";
        const E* p;
        if constexpr (STACK) p = &c().top(); else p = &c().front();
        o += std::to_string(reinterpret_cast<const unsigned char*>(p) - slot(0));
        return o;
    }
    int root_count() { return CAP + 2; }
    std::string root_name(int k) { return cat_str("range of ", k, " elements"); }
    void construct_root(int k)
    {
        model.clear();
        static const int src[] = {1, 2, 1, 1, 2, 2, 1, 2, 1, 2, 1, 2};
        if (k == 0) { R((void)new (slot(0)) C()); return; }
        if (k > (int)CAP && !CIRC) { expect_err(EV_LENGTH, k); }
        for (int i = 0; i < k; ++i) { model.push_back(src[i]); if (model.size() > CAP) model.erase(model.begin()); }
        R((void)new (slot(0)) C(InIt<E>{src}, InIt<E>{src + k}));
    }
    template <class X>
    static bool eqv(X& x, M m)
    {
        if (x.size() != m.size() || x.empty() != m.empty()) return false;
        if (m.empty()) return true;
        if constexpr (STACK) return val(x.top()) == m.back() && val(std::as_const(x).top()) == m.back();
        else return val(x.front()) == m.front() && val(x.back()) == m.back() && val(std::as_const(x).front()) == m.front() && val(std::as_const(x).back()) == m.back();
    }
    static void m_push(M& m, int v) { if (m.size() == CAP) m.erase(m.begin()); if (CAP > 0) m.push_back(v); }
    static void m_pop(M& m) { if (STACK) m.pop_back(); else m.erase(m.begin()); }
    void kill(int i)
    {
        reinterpret_cast<C*>(slot(i))->~C();
        if constexpr (TRACKED) MC_CHECK(g_live_count[i] == 0, LIFE, "destructor left ", (long)g_live_count[i], " live elements");
        wipe_slot(i);
    }
    // drain x and compare the exit order
    void drain(C& x, M m, std::uint32_t cat, const char* what)
    {
        while (!m.empty())
        {
            MC_CHECK(eqv(x, m), cat, what, ": exit order, expected ", show(m));
            if (x.empty()) return;
            R(x.pop());
            m_pop(m);
        }
        MC_CHECK(x.empty() && x.size() == 0, cat, what, ": not empty after removing everything");
    }
    void observe()
    {
        const C& x = c();
        MC_CHECK(R(x.size()) == model.size() && R(x.empty()) == model.empty(), SEM, "size/empty");
        MC_CHECK(R(x.max_size()) == CAP && C::static_max_size() == CAP, SEM, "max_size");
        MC_CHECK(R(is_full(x)) == (model.size() == CAP), SEM, "is_full");
        const bool same = eqv(c(), model);
        MC_CHECK(same, SEM, "ends differ from ", show(model));
        if (!same) { g_diverged = true; return; }
        if constexpr (TRACKED) MC_CHECK(g_live_count[0] == model.size(), LIFE, "live elements");
        MC_CHECK(R(x == x) && !R(x != x) && R((x <=> x) == 0), CMP, "self comparison");
        if constexpr (TRIVIAL)
        {
            MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "not trivially copyable");
            std::memcpy(slot(2), slot(0), g_slot_size);
            drain(*reinterpret_cast<C*>(slot(2)), model, RELOC | SEM, "relocated");
            wipe_slot(2);
        }
        if constexpr (COPYABLE)
        {
            R((void)new (slot(2)) C(x));
            drain(*reinterpret_cast<C*>(slot(2)), model, COPY | SEM, "copy");
            kill(2);
            // equal content, other history and another capacity
            R((void)new (slot(2)) C());
            C& f = *reinterpret_cast<C*>(slot(2));
            if (CAP > 0) { f.push(E(9)); f.pop(); }
            C2 g;
            for (int v : model) { f.push(E(v)); g.push(E(v)); }
            MC_CHECK(R(f == x) && R((f <=> x) == 0) && R(g == x) && R(x == g) && R((g <=> x) == 0), CMP, "differs from an equal one with another history");
            kill(2);
        }
    }
    void build()
    {
        for (int v = 1; v <= NVAL; ++v)
        {
            auto push = [=](const char* how, auto f)
            {
                op(cat_str(how, "(", v, ")"), [=](Sys& s)
                {
                    if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                    if (CIRC && CAP == 0) return false;
                    f(s);
                    m_push(s.model, v);
                    return true;
                });
            };
            if constexpr (COPYABLE) push("push(const&)", [=](Sys& s) { const E e(v); R(s.c().push(e)); MC_CHECK(val(e) == v, SEM, "push changed its argument"); });
            push("push(&&)", [=](Sys& s) { E e(v); R(s.c().push(std::move(e))); });
            push("emplace", [=](Sys& s)
            {
                auto& r = R(s.c().emplace(v));
                if constexpr (STACK) MC_CHECK(&r == &s.c().top(), SEM, "emplace return value");
                else MC_CHECK(&r == &s.c().back(), SEM, "emplace return value");
            });
            if constexpr (STACK)
                op(cat_str("top()=", v), [=](Sys& s) { if (s.model.empty()) return false; s.c().top() = E(v); s.model.back() = v; return true; });
            else
            {
                op(cat_str("front()=", v), [=](Sys& s) { if (s.model.empty()) return false; s.c().front() = E(v); s.model.front() = v; return true; });
                op(cat_str("back()=", v), [=](Sys& s) { if (s.model.empty()) return false; s.c().back() = E(v); s.model.back() = v; return true; });
            }
        }
        op("pop", [](Sys& s) { if (s.model.empty()) { expect_err(EV_EMPTY); R(s.c().pop()); return true; } R(s.c().pop()); m_pop(s.model); return true; });
        if constexpr (STACK)
        {
            op("top() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(s.c().top()); return true; });
            op("const top() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).top()); return true; });
        }
        else
        {
            op("front() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(s.c().front()); return true; });
            op("back() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(s.c().back()); return true; });
            op("const front() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).front()); return true; });
            op("const back() when empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).back()); return true; });
        }
        if constexpr (COPYABLE)
        {
            op("push(own oldest/newest element)", [](Sys& s)
            {
                if (s.model.empty() || (!CIRC && s.model.size() == CAP)) return false;
                int v;
                if constexpr (STACK) { v = s.model.back(); R(s.c().push(std::as_const(s.c()).top())); }
                else { v = s.model.front(); R(s.c().push(std::as_const(s.c()).front())); }
                m_push(s.model, v);
                return true;
            });
            op("copy-construct, use the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                MC_CHECK(R(s.c() == s.d()), COPY | CMP, "copy != original");
                s.drain(s.d(), s.model, COPY | SEM, "copy");
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source");
                R((void)(s.d() = std::as_const(s.c())));
                s.kill(0);
                R((void)new (slot(0)) C(std::as_const(s.d())));
                s.kill(1);
                return true;
            });
            op("self copy-assign", [](Sys& s) { C& a = s.c(); R((void)(a = std::as_const(s.c()))); return true; });
        }
        op("move-construct there and back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "move construction lost content");
            s.kill(0);
            R((void)new (slot(0)) C());
            R((void)(s.c() = std::move(s.d())));
            s.kill(1);
            return true;
        });
        for (int n = 0; n <= (int)CAP; ++n)
            op(cat_str("swap with ", n, " elements"), [=](Sys& s)
            {
                R((void)new (slot(1)) C());
                M w;
                for (int i = 0; i < n; ++i) { s.d().push(E(i % 2 + 1)); w.push_back(i % 2 + 1); }
                const M old = s.model;
                { using std::swap; R(swap(s.c(), s.d())); }
                s.model = w;
                s.drain(s.d(), old, COPY | SEM, "swapped");
                s.kill(1);
                return true;
            });
    }
    const char* pair_assign_name(int k) { static const char* n[] = {"copy-assign", "move-assign", "swap"}; return n[k]; }
    // leaves the result in slot 0 (its model is that of the operand), slot 1 destroyed
    bool pair_assign(int k)
    {
        if (k == 0)
        {
            if constexpr (std::is_copy_assignable_v<C> && COPYABLE) R((void)(c() = std::as_const(d())));
            else return false;
        }
        else if (k == 1) R((void)(c() = std::move(d())));
        else { using std::swap; R(swap(c(), d())); }
        kill(1);
        return true;
    }
    bool pair_ops(const M&, const M&) { return true; }
    int pair_op_count() { return 3; }
    const char* pair_op_name(int k) { static const char* n[] = {"compare", "copy-assign", "swap"}; return n[k]; }
    bool pair_op(int k, const M& mx, const M& my)
    {
        if (k == 0)
        {
            if ((g_mask & CMP) == 0) return false;
            const C& x = c();
            const C& y = d();
            MC_CHECK((R(x == y)) == (mx == my) && (R(x != y)) == (mx != my), CMP, "==");
            MC_CHECK((R(x <=> y)) == (mx <=> my), CMP, "<=>");
            MC_CHECK((R(x < y)) == (mx < my) && (R(x > y)) == (mx > my) && (R(x <= y)) == (mx <= my) && (R(x >= y)) == (mx >= my), CMP, "ordering");
            wipe_slot(1);
            return true;
        }
        if ((g_mask & (COPY | LIFE)) == 0) return false;
        if (k == 1)
        {
            if constexpr (COPYABLE) { R((void)(c() = std::as_const(d()))); drain(c(), my, COPY, "copy-assigned"); drain(d(), my, COPY, "copy-assign source"); }
            else { R((void)(c() = std::move(d()))); drain(c(), my, COPY, "move-assigned"); }
        }
        else { using std::swap; R(swap(c(), d())); drain(c(), my, COPY, "swap"); drain(d(), mx, COPY, "swap"); }
        kill(0);
        kill(1);
        return true;
    }
};
int main(int argc, char** argv)
{
    using C = CT<CAP>;
    using C2 = CT<CAP + 2>;
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(C));
#ifdef POLICY_ABORT
    g_abort_policy = true;
#endif
    g_program = PROG;
    using Sys = SysT<C, C2, ELEM>;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
