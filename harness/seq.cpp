// Sequence containers against std::vector<int> as the reference model.
// -DCONT_VECTOR | -DCONT_DEQUE | -DCONT_CIRC | -DCONT_LIST   -DELEM=<type> -DCAP=<n> -DNVAL=<n>
// [-DPOLICY_ABORT]
#include "mc.hpp"
#if defined(CONT_VECTOR)
#include "fixed_containers/fixed_vector.hpp"
#define TPL fixed_containers::FixedVector
#define NAME "vector"
#elif defined(CONT_DEQUE)
#include "fixed_containers/fixed_deque.hpp"
#define TPL fixed_containers::FixedDeque
#define NAME "deque"
#elif defined(CONT_CIRC)
#include "fixed_containers/fixed_circular_deque.hpp"
#define TPL fixed_containers::FixedCircularDeque
#define NAME "circular_deque"
#elif defined(CONT_LIST)
#include "fixed_containers/fixed_list.hpp"
#define TPL fixed_containers::FixedList
#define NAME "list"
#endif
#ifndef NVAL
#define NVAL 3
#endif
#ifndef MAXRANGE
#define MAXRANGE 3
#endif
using namespace mc;
using E = ELEM;
#ifdef POLICY_ABORT
using C = TPL<E, CAP>;
using C2 = TPL<E, CAP + 2>;
#else
using C = TPL<E, CAP, RecSeqChecking<E>>;
using C2 = TPL<E, CAP + 2, RecSeqChecking<E>>;
#endif
#if defined(CONT_CIRC)
constexpr bool CIRC = true;
#else
constexpr bool CIRC = false;
#endif
#if defined(CONT_LIST)
constexpr bool LIST = true;
#else
constexpr bool LIST = false;
#endif
#if defined(CONT_VECTOR)
constexpr bool VEC = true;
#else
constexpr bool VEC = false;
#endif
#define AD(...) static_cast<const void*>(std::addressof(__VA_ARGS__))
constexpr bool COPYABLE = std::is_copy_constructible_v<E>;
constexpr bool DEFAULTABLE = std::is_default_constructible_v<E>;
constexpr bool TRIVIAL = std::is_trivially_copyable_v<E>;
using V = std::vector<int>;

template <class C, class C2, class E>
struct SysT
{
    using Sys = SysT;
    using M = V;
    static constexpr bool TRACKED = is_tracked<E>;
    static constexpr bool RELOCATABLE = TRIVIAL;
    V model;
    std::vector<Op<Sys>> ops;

    std::string ser(const V& m)
    {
        std::string o;
        for (int x : m) o += (char)(x + 64);
        return o;
    }
    V deser(const char* p, std::size_t n)
    {
        V m;
        for (std::size_t i = 0; i < n; ++i) m.push_back((int)(signed char)p[i] - 64);
        return m;
    }
    static std::string show(const V& m)
    {
        std::string o = "[";
        for (int x : m) o += std::to_string(x) + " ";
        return o + "]";
    }
#if defined(CONT_DEQUE) || defined(CONT_CIRC)
    // Ring-buffer states that hold the same sequence in the same physical cells have the same
    // futures: the logical start drifts without bound, only its residue is observable. For the
    // empty container the cell is found by pushing one element in a scratch copy.
    std::string abs_key()
    {
        std::string o;
        auto add = [&](const void* base, C& x)
        {
            for (auto& y : x)
            {
                const auto off = reinterpret_cast<const unsigned char*>(std::addressof(y)) - static_cast<const unsigned char*>(base);
                o += std::to_string(off) + ",";
            }
        };
        if (!model.empty() || CAP == 0) { add(slot(0), c()); return o; }
        std::memcpy(slot(2), slot(0), g_slot_size);
        e().push_back(mk(1));
        o = "e";
        add(slot(2), e());
        std::memset(g_live[2], 0, g_slot_size);
        g_live_count[2] = 0;
        wipe_slot(2);
        return o;
    }
#endif
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    C& e() { return *reinterpret_cast<C*>(slot(2)); }

    void construct_initial()
    {
        R((void)new (slot(0)) C());
        model.clear();
    }
#ifdef WIDE
    // Many initial states: every size, and for the ring buffers every rotation in both directions,
    // for the list several orders of the free cells.
#if defined(CONT_VECTOR)
    static constexpr int ROT = 1;
#else
    static constexpr int ROT = 2 * (int)CAP + 1;
#endif
    int root_count() { return ROT * ((int)CAP + 1); }
    std::string root_name(int k) { return cat_str("rotation ", k % ROT - ROT / 2, ", ", k / ROT, " elements"); }
    void construct_root(int k)
    {
        const int rot = k % ROT - ROT / 2;
        const int n = k / ROT;
        R((void)new (slot(0)) C());
        model.clear();
#if !defined(CONT_VECTOR)
        for (int i = 0; i < rot; ++i) { R(c().push_back(mk(1))); if (i + 1 < (int)CAP) { R(c().push_back(mk(1))); R(c().pop_back()); } R(c().pop_front()); }
        for (int i = 0; i < -rot; ++i) { R(c().push_front(mk(1))); R(c().pop_back()); }
#endif
        for (int i = 0; i < n; ++i)
        {
            const int v = 1 + (i * 5 + 1) % 61;
#if defined(CONT_LIST)
            if ((rot & 1) && (i & 1)) { R(c().push_front(mk(v))); model.insert(model.begin(), v); continue; }
#endif
            R(c().push_back(mk(v)));
            model.push_back(v);
        }
    }
#endif
    // ---- helpers
    static bool eqv(const C& x, const V& m)
    {
        if (x.size() != m.size()) return false;
        std::size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i)
        {
            if (i >= m.size()) return false;
            if (val(*it) != m[i]) return false;
        }
        return i == m.size();
    }
    static std::vector<const void*> addrs(C& x)
    {
        std::vector<const void*> a;
        for (auto& y : x) a.push_back(std::addressof(y));
        return a;
    }
    auto it_at(std::size_t i) { return std::next(c().begin(), (long)i); }
    auto cit_at(std::size_t i) { return std::next(std::as_const(c()).begin(), (long)i); }
    template <class It>
    long pos_of(It it) { return std::distance(c().begin(), it); }
    // position check that never dereferences a wrong iterator
    template <class It>
    void check_pos(It it, std::size_t want, const char* what)
    {
        bool ok = it == it_at(want);
        MC_CHECK(ok, SEM | ITER | STAB, what, ": returned position is not ", (long)want);
    }
    void content(const char* what) { MC_CHECK(eqv(c(), model), SEM, what, ": content differs, expected ", show(model)); }

    // ---- observation of every const accessor in the current state
    void observe()
    {
        const C& x = c();
        const V& m = model;
        const auto n = m.size();
        MC_CHECK(R(x.size()) == n, SEM, "size() is ", (long)x.size(), " expected ", (long)n);
        MC_CHECK(R(x.empty()) == (n == 0), SEM, "empty()");
        MC_CHECK(R(x.max_size()) == CAP, SEM, "max_size()");
        MC_CHECK(C::static_max_size() == CAP, SEM, "static_max_size()");
        MC_CHECK(R(is_full(x)) == (n == CAP), SEM, "is_full()");
        if (x.size() != n) { g_diverged = true; return; }
        const bool same = R(eqv(x, m));
        MC_CHECK(same, SEM | ITER, "forward iteration differs from ", show(m));
        if (!same) { g_diverged = true; return; }
        if constexpr (TRACKED) MC_CHECK(g_live_count[0] == n, LIFE, "live elements ", (long)g_live_count[0], " size ", (long)n);
        if (n > 0)
        {
            MC_CHECK(val(R(x.front())) == m.front(), SEM, "front()");
            MC_CHECK(val(R(x.back())) == m.back(), SEM, "back()");
            MC_CHECK(AD(x.front()) == AD(*x.begin()), SEM, "front() is not *begin()");
            MC_CHECK(AD(x.back()) == AD(*std::prev(x.end())), SEM | ITER, "back() is not *prev(end())");
            MC_CHECK(AD(c().front()) == AD(x.front()) && AD(c().back()) == AD(x.back()), SEM, "front/back of const and mutable differ");
        }
        if constexpr (!LIST)
        {
            for (std::size_t i = 0; i < n; ++i)
            {
                MC_CHECK(val(R(x[i])) == m[i], SEM, "operator[](", (long)i, ")");
                MC_CHECK(val(R(x.at(i))) == m[i], SEM, "at(", (long)i, ")");
                MC_CHECK(AD(c()[i]) == AD(x[i]) && AD(c().at(i)) == AD(x.at(i)), SEM, "element access const/mutable differ");
            }
        }
        if constexpr (VEC)
        {
            MC_CHECK(x.capacity() == CAP, SEM, "capacity()");
            if (CAP > 0 && n > 0)
            {
                for (std::size_t i = 0; i < n; ++i) MC_CHECK(val(R(x.data())[i]) == m[i], SEM, "data()[", (long)i, "]");
                MC_CHECK(c().data() == x.data(), SEM, "data() const/mutable differ");
            }
        }
        iterators();
        if constexpr (COPYABLE || true) compare_self();
        if constexpr (TRIVIAL) relocation();
    }
    template <class B, class En>
    void seq_check(B b, En en, const V& want, const char* what)
    {
        std::size_t i = 0;
        for (auto it = b; it != en; ++it, ++i)
        {
            if (i >= want.size()) { MC_CHECK(false, ITER | SEM, what, ": visits too many elements"); return; }
            MC_CHECK(val(*it) == want[i], ITER | SEM, what, ": element ", (long)i);
        }
        MC_CHECK(i == want.size(), ITER | SEM, what, ": visits too few elements");
        // and backwards with --
        auto it = en;
        for (i = want.size(); i-- > 0;)
        {
            --it;
            MC_CHECK(val(*it) == want[i], ITER | SEM, what, ": going back, element ", (long)i);
        }
        MC_CHECK(it == b, ITER | SEM, what, ": going back does not reach the start");
    }
    void iterators()
    {
        C& y = c();
        const C& x = y;
        const V& m = model;
        const V rev(m.rbegin(), m.rend());
        RealScope rs;
        MC_CHECK(value_initialised_ok(y.begin()) && value_initialised_ok(x.cbegin()), ITER, "value-initialised iterators");
        MC_CHECK(value_initialised_ok(y.rbegin()) && value_initialised_ok(x.crbegin()), ITER, "value-initialised reverse iterators");
        seq_check(y.begin(), y.end(), m, "begin/end");
        seq_check(x.begin(), x.end(), m, "const begin/end");
        seq_check(x.cbegin(), x.cend(), m, "cbegin/cend");
        seq_check(y.rbegin(), y.rend(), rev, "rbegin/rend");
        seq_check(x.rbegin(), x.rend(), rev, "const rbegin/rend");
        seq_check(x.crbegin(), x.crend(), rev, "crbegin/crend");
        const long n = (long)m.size();
        using CI = typename C::const_iterator;
        using CRI = typename C::const_reverse_iterator;
        auto b = y.begin();
        auto rb = y.rbegin();
        long i = 0;
        for (auto it = y.begin();; ++it, ++i)
        {
            CI ci = it;
            MC_CHECK(ci == it && it == ci, ITER, "const conversion changes the position ", i);
            MC_CHECK(ci == std::next(x.cbegin(), i), ITER, "const conversion differs from cbegin()+", i);
            MC_CHECK(std::distance(b, it) == i, ITER, "distance ", i);
            MC_CHECK(std::distance(it, y.end()) == n - i, ITER, "distance to end ", i);
            if (i < n)
            {
                MC_CHECK(val(*ci) == m[(std::size_t)i], ITER, "value through const conversion");
                MC_CHECK(std::addressof(*it) == std::addressof(*ci) && it.operator->() == std::addressof(*it), ITER, "operator->");
                auto p = it;
                auto q = p++;
                MC_CHECK(q == it && p == std::next(it), ITER, "post-increment");
                auto q2 = p--;
                MC_CHECK(p == it && q2 == std::next(it), ITER, "post-decrement");
            }
            if (i == n) break;
        }
        i = 0;
        for (auto it = y.rbegin();; ++it, ++i)
        {
            CRI ci = it;
            MC_CHECK(ci == std::next(x.crbegin(), i), ITER, "const conversion of reverse iterator moves, position ", i);
            MC_CHECK(ci == it && it == ci && (i == n || (std::next(ci) != it && it != std::next(ci))), ITER, "reverse iterator and its const conversion compare unequal, position ", i);
            {
                CRI cj{};
                cj = it;
                MC_CHECK(cj == ci, ITER, "assignment of reverse_iterator to const_reverse_iterator, position ", i);
                auto p = it;
                if (i < n)
                {
                    auto q = p++;
                    MC_CHECK(q == it && p == std::next(it), ITER, "reverse post-increment");
                    auto q2 = p--;
                    MC_CHECK(p == it && q2 == std::next(it), ITER, "reverse post-decrement");
                    MC_CHECK(std::addressof(*it) == std::addressof(*ci) && it.operator->() == std::addressof(*it) && ci.operator->() == std::addressof(*it), ITER, "reverse operator->");
                }
            }
            MC_CHECK(it.base() == std::next(y.begin(), n - i), ITER, "base() at reverse position ", i);
            MC_CHECK(ci.base() == std::next(x.cbegin(), n - i), ITER, "const base() at reverse position ", i);
            MC_CHECK(std::distance(rb, it) == i, ITER, "reverse distance");
            if (i < n) MC_CHECK(val(*ci) == m[(std::size_t)(n - 1 - i)] && val(*it) == m[(std::size_t)(n - 1 - i)], ITER, "reverse value at ", i);
            if (i == n) break;
        }
        if constexpr (!LIST)
        {
            ra(y.begin(), m, n, "iterator");
            ra(x.cbegin(), m, n, "const_iterator");
            ra(y.rbegin(), rev, n, "reverse_iterator");
            ra(x.crbegin(), rev, n, "const_reverse_iterator");
            MC_CHECK(y.end() - y.begin() == n && x.cend() - x.cbegin() == n && y.rend() - y.rbegin() == n, ITER, "end - begin");
            for (long k = 0; k <= n; ++k)
            {
                MC_CHECK(y.end() - k == y.begin() + (n - k), ITER, "end - k");
                MC_CHECK(y.rend() - k == y.rbegin() + (n - k), ITER, "rend - k");
                CI ck = y.begin() + k;
                MC_CHECK(ck - x.cbegin() == k, ITER, "mixed difference");
            }
            // a mutable and a const iterator of the same container, every pair of positions
            ra_mixed(y.begin(), x.cbegin(), n, "iterator/const_iterator");
            ra_mixed(y.rbegin(), x.crbegin(), n, "reverse_iterator/const_reverse_iterator");
        }
    }
    template <class Mu, class Co>
    void ra_mixed(Mu mb, Co cb, long n, const char* what)
    {
        for (long i = 0; i <= n; ++i)
            for (long j = 0; j <= n; ++j)
            {
                const Mu a = mb + i;
                const Co z = cb + j;
                MC_CHECK(z - a == j - i && a - z == i - j, ITER, what, " mixed difference ", i, " ", j);
                MC_CHECK((a == z) == (i == j) && (z == a) == (i == j) && (a != z) == (i != j) && (z != a) == (i != j), ITER, what, " mixed equality ", i, " ", j);
                MC_CHECK((a < z) == (i < j) && (a > z) == (i > j) && (a <= z) == (i <= j) && (a >= z) == (i >= j), ITER, what, " mixed ordering ", i, " ", j);
                MC_CHECK((z < a) == (j < i) && (z > a) == (j > i) && (z <= a) == (j <= i) && (z >= a) == (j >= i), ITER, what, " mixed ordering ", j, " ", i);
                MC_CHECK((a <=> z) == (i <=> j) && (z <=> a) == (j <=> i), ITER, what, " mixed <=> ", i, " ", j);
            }
    }
    template <class It>
    void ra(It b, const V& m, long n, const char* what)
    {
        for (long i = 0; i <= n; ++i)
            for (long j = 0; j <= n; ++j)
            {
                It a = b + i;
                It z = a;
                z += (j - i);
                MC_CHECK(z == b + j, ITER, what, " += ", j - i, " from ", i);
                It w = a;
                w -= (i - j);
                MC_CHECK(w == z, ITER, what, " -= ", i - j, " from ", i);
                MC_CHECK(a + (j - i) == z && a - (i - j) == z && (j - i) + a == z, ITER, what, " + / -");
                MC_CHECK(z - a == j - i, ITER, what, " difference ", i, " ", j);
                MC_CHECK((a < z) == (i < j) && (a > z) == (i > j) && (a <= z) == (i <= j) && (a >= z) == (i >= j) &&
                             (a == z) == (i == j) && (a != z) == (i != j), ITER, what, " ordering ", i, " ", j);
                MC_CHECK((a <=> z) == (i <=> j), ITER, what, " <=> ", i, " ", j);
                if (j < n) MC_CHECK(val(a[j - i]) == m[(std::size_t)j], ITER, what, " [] ", j - i, " from ", i);
                if (i < n) MC_CHECK(val(*a) == m[(std::size_t)i], ITER, what, " * at ", i);
            }
    }
    void compare_self()
    {
        const C& x = c();
        MC_CHECK(R(x == x), CMP, "x == x");
        MC_CHECK(!R(x != x), CMP, "x != x");
        MC_CHECK((R(x <=> x)) == std::strong_ordering::equal, CMP, "x <=> x");
        // against a container of another capacity, for every single-element deviation
        if constexpr (COPYABLE)
        {
            auto other = [&](const V& w)
            {
                C2 z;
                for (int v : w) z.push_back(E(v));
                const auto want = model <=> w;
                MC_CHECK((R(x == z)) == (model == w), CMP, "== with another capacity ", show(w));
                MC_CHECK((R(z == x)) == (model == w), CMP, "== with another capacity (reversed) ", show(w));
                MC_CHECK((R(x <=> z)) == want, CMP, "<=> with another capacity ", show(w));
                MC_CHECK((R(x < z)) == (want < 0) && (R(x > z)) == (want > 0) && (R(x <= z)) == (want <= 0) && (R(x >= z)) == (want >= 0), CMP, "ordering with another capacity ", show(w));
            };
            const bool t = g_tracking;
            other(model);
            for (std::size_t i = 0; i < model.size(); ++i)
                for (int dlt : {-1, 1})
                {
                    V w = model;
                    w[i] += dlt;
                    other(w);
                }
            V w = model;
            w.push_back(1);
            other(w);
            if (!model.empty()) { w = model; w.pop_back(); other(w); }
            g_tracking = t;
        }
    }
    void relocation()
    {
        static_assert(std::is_trivially_copyable_v<E>);
        MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "container of trivially copyable elements is not trivially copyable");
        // byte copy to slot 1; the original is overwritten meanwhile
        std::string keep(reinterpret_cast<char*>(slot(0)), g_slot_size);
        std::memcpy(slot(1), slot(0), g_slot_size);
        std::memset(slot(0), 0x5A, g_slot_size);
        const C& r = d();
        const bool ok = R(eqv(r, model));
        std::memcpy(slot(0), keep.data(), g_slot_size);
        MC_CHECK(ok, RELOC, "byte-relocated container differs");
        MC_CHECK(R(r == std::as_const(c())), RELOC | CMP, "byte-relocated container != original");
        wipe_slot(1);
    }

    // ---- alphabet
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }

    // runs `f` (a mutation) on the container; model already updated by the caller after success
    static E mk(int v) { return E(v); }

    void room(std::size_t extra)
    {
        if (!CIRC && model.size() + extra > CAP) expect_err(EV_LENGTH, (long)(CAP == 0 ? extra : 0) + -1, -1);
    }
    // model of circular semantics ------------------------------------------------------------
    void m_push_back(int v)
    {
        if (CIRC && model.size() == CAP) { if (CAP == 0) return; model.erase(model.begin()); }
        model.push_back(v);
    }
    void m_push_front(int v)
    {
        if (CIRC && model.size() == CAP) { if (CAP == 0) return; model.pop_back(); }
        model.insert(model.begin(), v);
    }
    // insertion of w before position p; returns the position of the returned iterator
    std::size_t m_insert(std::size_t p, const V& w)
    {
        if (!CIRC || model.size() + w.size() <= CAP)
        {
            model.insert(model.begin() + (long)p, w.begin(), w.end());
            return p;
        }
        // circular: the virtual sequence is prefix, w, suffix; the front-most surplus is dropped
        V all(model.begin(), model.begin() + (long)p);
        all.insert(all.end(), w.begin(), w.end());
        all.insert(all.end(), model.begin() + (long)p, model.end());
        const std::size_t drop = all.size() - CAP;
        model.assign(all.begin() + (long)drop, all.end());
        return p > drop ? p - drop : 0;
    }

    // addresses of elements that must not move: [lo,hi) in old positions map to +shift
    std::vector<const void*> before_addrs;
    void stab_prepare() { before_addrs = addrs(c()); }
    void stab(std::size_t lo, std::size_t hi, long shift, const char* what)
    {
        auto a = addrs(c());
        for (std::size_t i = lo; i < hi; ++i)
        {
            const std::size_t j = (std::size_t)((long)i + shift);
            MC_CHECK(j < a.size() && a[j] == before_addrs[i], STAB, what, ": element ", (long)i, " moved");
        }
    }

    void build()
    {
        for (int v = 1; v <= NVAL; ++v)
        {
            if constexpr (COPYABLE)
                op(cat_str("push_back(const&,", v, ")"), [v](Sys& s)
                {
                    const E x = mk(v);
                    if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                    if (CIRC && CAP == 0) return false;
                    s.stab_prepare();
                    const std::size_t n = s.model.size();
                    R(s.c().push_back(x));
                    s.m_push_back(v);
                    if (CIRC && n == CAP) s.stab(1, n, -1, "push_back"); else s.stab(0, n, 0, "push_back");
                    MC_CHECK(val(x) == v, SEM, "push_back(const&) changed its argument");
                    return true;
                });
            op(cat_str("push_back(&&,", v, ")"), [v](Sys& s)
            {
                if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                if (CIRC && CAP == 0) return false;
                R(s.c().push_back(mk(v)));
                s.m_push_back(v);
                return true;
            });
            op(cat_str("emplace_back(", v, ")"), [v](Sys& s)
            {
                if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                if (CIRC && CAP == 0) return false;
                E& r = R(s.c().emplace_back(v));
                s.m_push_back(v);
                MC_CHECK(AD(r) == AD(s.c().back()), SEM, "emplace_back must return back()");
                MC_CHECK(val(r) == v, SEM, "emplace_back value");
                return true;
            });
#if !defined(CONT_VECTOR)
            if constexpr (COPYABLE)
                op(cat_str("push_front(const&,", v, ")"), [v](Sys& s)
                {
                    const E x = mk(v);
                    if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                    if (CIRC && CAP == 0) return false;
                    s.stab_prepare();
                    const std::size_t n = s.model.size();
                    R(s.c().push_front(x));
                    s.m_push_front(v);
                    if (CIRC && n == CAP) s.stab(0, n - 1, 1, "push_front"); else s.stab(0, n, 1, "push_front");
                    MC_CHECK(val(x) == v, SEM, "push_front(const&) changed its argument");
                    return true;
                });
            op(cat_str("push_front(&&,", v, ")"), [v](Sys& s)
            {
                if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                if (CIRC && CAP == 0) return false;
                R(s.c().push_front(mk(v)));
                s.m_push_front(v);
                return true;
            });
            op(cat_str("emplace_front(", v, ")"), [v](Sys& s)
            {
                if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                if (CIRC && CAP == 0) return false;
                E& r = R(s.c().emplace_front(v));
                s.m_push_front(v);
                MC_CHECK(AD(r) == AD(s.c().front()), SEM, "emplace_front must return front()");
                MC_CHECK(val(r) == v, SEM, "emplace_front value");
                return true;
            });
#endif
        }
        op("pop_back()", [](Sys& s)
        {
            if (s.model.empty()) expect_err(EV_EMPTY);
            s.stab_prepare();
            const auto n = s.model.size();
            R(s.c().pop_back());
            if (n) s.model.pop_back();
            if (n) s.stab(0, n - 1, 0, "pop_back");
            return true;
        });
#if !defined(CONT_VECTOR)
        op("pop_front()", [](Sys& s)
        {
            if (s.model.empty()) expect_err(EV_EMPTY);
            s.stab_prepare();
            const auto n = s.model.size();
            R(s.c().pop_front());
            if (n) s.model.erase(s.model.begin());
            if (n) s.stab(1, n, -1, "pop_front");
            return true;
        });
#endif
        op("front() const", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).front()); return true; });
        op("front()", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(s.c().front()); return true; });
        op("back() const", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).back()); return true; });
        op("back()", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(s.c().back()); return true; });
#if !defined(CONT_LIST)
        for (long i : {0L, 1L, 2L, (long)CAP, (long)CAP + 1, 1000000L, -1L, -2L, (long)0x100000000L})
        {
            auto idx = (std::size_t)i;
            const long fig = i < 0 ? -1 : i;
            op(cat_str("at(", i, ") out of range"), [=](Sys& s) { if (idx < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, fig, (long)s.model.size()); (void)R(s.c().at(idx)); return true; });
            op(cat_str("at(", i, ") const out of range"), [=](Sys& s) { if (idx < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, fig, (long)s.model.size()); (void)R(std::as_const(s.c()).at(idx)); return true; });
            op(cat_str("[", i, "] out of range"), [=](Sys& s) { if (idx < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, fig, (long)s.model.size()); (void)R(s.c()[idx]); return true; });
            op(cat_str("[", i, "] const out of range"), [=](Sys& s) { if (idx < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, fig, (long)s.model.size()); (void)R(std::as_const(s.c())[idx]); return true; });
        }
        if constexpr (std::is_move_assignable_v<E>)
            for (std::size_t i = 0; i < CAP; ++i)
                for (int v = 1; v <= NVAL; ++v)
                {
                    op(cat_str("[", (long)i, "]=", v), [=](Sys& s) { if (i >= s.model.size()) return false; s.c()[i] = mk(v); s.model[i] = v; return true; });
                    if (v == 1) op(cat_str("at(", (long)i, ")=", v), [=](Sys& s) { if (i >= s.model.size()) return false; s.c().at(i) = mk(v); s.model[i] = v; return true; });
                }
#endif
        if constexpr (std::is_move_assignable_v<E>)
        {
            op("front()=2", [](Sys& s) { if (s.model.empty()) return false; s.c().front() = mk(2); s.model.front() = 2; return true; });
            op("back()=1", [](Sys& s) { if (s.model.empty()) return false; s.c().back() = mk(1); s.model.back() = 1; return true; });
            for (std::size_t i = 0; i < CAP; ++i)
            {
                op(cat_str("*(begin()+", (long)i, ")=2"), [=](Sys& s) { if (i >= s.model.size()) return false; *s.it_at(i) = mk(2); s.model[i] = 2; return true; });
                op(cat_str("*(rbegin()+", (long)i, ")=1"), [=](Sys& s) { if (i >= s.model.size()) return false; *std::next(s.c().rbegin(), (long)i) = mk(1); s.model[s.model.size() - 1 - i] = 1; return true; });
            }
        }
        op("clear()", [](Sys& s) { R(s.c().clear()); s.model.clear(); return true; });

        // own-element arguments
        if constexpr (COPYABLE)
        {
            for (std::size_t j = 0; j < CAP; ++j)
            {
                op(cat_str("push_back(own ", (long)j, ")"), [=](Sys& s)
                {
                    if (j >= s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                    const int v = s.model[j];
                    R(s.c().push_back(*s.it_at(j)));
                    s.m_push_back(v);
                    return true;
                });
                op(cat_str("emplace_back(own ", (long)j, ")"), [=](Sys& s)
                {
                    if (j >= s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                    const int v = s.model[j];
                    R((void)s.c().emplace_back(*s.cit_at(j)));
                    s.m_push_back(v);
                    return true;
                });
#if !defined(CONT_VECTOR)
                op(cat_str("push_front(own ", (long)j, ")"), [=](Sys& s)
                {
                    if (j >= s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                    const int v = s.model[j];
                    R(s.c().push_front(*s.it_at(j)));
                    s.m_push_front(v);
                    return true;
                });
                op(cat_str("emplace_front(own ", (long)j, ")"), [=](Sys& s)
                {
                    if (j >= s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                    const int v = s.model[j];
                    R((void)s.c().emplace_front(*s.cit_at(j)));
                    s.m_push_front(v);
                    return true;
                });
#endif
                for (std::size_t p = 0; p <= CAP; ++p)
                {
                    op(cat_str("insert(", (long)p, ",own ", (long)j, ")"), [=](Sys& s)
                    {
                        if (j >= s.model.size() || p > s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                        const int v = s.model[j];
                        auto it = R(s.c().insert(s.cit_at(p), *s.it_at(j)));
                        const auto q = s.m_insert(p, V{v});
                        s.check_pos(it, q, "insert(own)");
                        return true;
                    });
                    op(cat_str("emplace(", (long)p, ",own ", (long)j, ")"), [=](Sys& s)
                    {
                        if (j >= s.model.size() || p > s.model.size() || (!CIRC && s.model.size() == CAP)) return false;
                        const int v = s.model[j];
                        auto it = R(s.c().emplace(s.cit_at(p), *s.cit_at(j)));
                        const auto q = s.m_insert(p, V{v});
                        s.check_pos(it, q, "emplace(own)");
                        return true;
                    });
                }
                op(cat_str("resize(+1, own ", (long)j, ")"), [=](Sys& s)
                {
                    if (j >= s.model.size() || s.model.size() == CAP) return false;
                    const int v = s.model[j];
                    R(s.c().resize(s.model.size() + 1, *s.cit_at(j)));
                    s.model.push_back(v);
                    return true;
                });
            }
        }
        // single insertions
        for (std::size_t p = 0; p <= CAP; ++p)
            for (int v = 1; v <= std::min(NVAL, 2); ++v)
            {
                auto pre = [=](Sys& s)
                {
                    if (p > s.model.size()) return false;
                    if (CIRC && CAP == 0) return false;
                    if (!CIRC && s.model.size() == CAP) expect_err(EV_LENGTH, CAP + 1);
                    s.stab_prepare();
                    return true;
                };
                auto post = [=](Sys& s, auto it, const char* what)
                {
                    const auto n = s.model.size();
                    if (!CIRC && n == CAP) return;
                    const auto q = s.m_insert(p, V{v});
                    s.check_pos(it, q, what);
                    if (VEC || LIST) s.stab(0, p, 0, what);
                    if (LIST) s.stab(p, n, 1, what);
                };
                if constexpr (COPYABLE)
                    op(cat_str("insert(", (long)p, ",const&", v, ")"), [=](Sys& s)
                    {
                        if (!pre(s)) return false;
                        const E x = mk(v);
                        auto it = R(s.c().insert(s.cit_at(p), x));
                        post(s, it, "insert(const&)");
                        MC_CHECK(val(x) == v, SEM, "insert changed its argument");
                        return true;
                    });
                op(cat_str("insert(", (long)p, ",&&", v, ")"), [=](Sys& s)
                {
                    if (!pre(s)) return false;
                    auto it = R(s.c().insert(s.cit_at(p), mk(v)));
                    post(s, it, "insert(&&)");
                    return true;
                });
                op(cat_str("emplace(", (long)p, ",", v, ")"), [=](Sys& s)
                {
                    if (!pre(s)) return false;
                    auto it = R(s.c().emplace(s.it_at(p), v));
                    post(s, it, "emplace");
                    return true;
                });
            }
        // range insertions: forward, input, pointers to elements, ilist
        static const V pats[] = {{}, {1}, {2, 1}, {1, 2, 2}, {2, 2, 1, 1}, {1, 2, 1, 2, 2}, {2, 1, 1, 2, 2, 1}};
        for (int k = 0; k <= MAXRANGE; ++k)
        {
            static V w[8];
            w[k] = pats[k];
            const V* pw = &w[k];
            auto over = [=](Sys& s) { return !CIRC && s.model.size() + pw->size() > CAP; };
            for (std::size_t p = 0; p <= CAP; ++p)
            {
                auto post = [=](Sys& s, auto it, const char* what)
                {
                    if (over(s)) return;
                    const auto n = s.model.size();
                    const auto q = s.m_insert(p, *pw);
                    s.check_pos(it, q, what);
                    if (VEC || LIST) s.stab(0, p, 0, what);
                    if (LIST) s.stab(p, n, (long)pw->size(), what);
                };
                auto pre = [=](Sys& s, bool input)
                {
                    if (p > s.model.size() || (CIRC && CAP == 0)) return false;
                    if (over(s)) expect_err(EV_LENGTH, (long)(s.model.size() + pw->size()));
                    (void)input;
                    s.stab_prepare();
                    return true;
                };
                op(cat_str("insert(", (long)p, ", forward range of ", k, ")"), [=](Sys& s)
                {
                    if (!pre(s, false)) return false;
                    auto it = R(s.c().insert(s.cit_at(p), FwIt<E>{pw->data()}, FwIt<E>{pw->data() + pw->size()}));
                    post(s, it, "insert(forward range)");
                    return true;
                });
                op(cat_str("insert(", (long)p, ", pointer range of ", k, ")"), [=](Sys& s)
                {
                    if (!pre(s, false)) return false;
                    auto it = R(s.c().insert(s.cit_at(p), pw->data(), pw->data() + pw->size()));
                    post(s, it, "insert(pointer range)");
                    return true;
                });
                op(cat_str("insert(", (long)p, ", input range of ", k, ")"), [=](Sys& s)
                {
                    if (!pre(s, true)) return false;
                    auto it = R(s.c().insert(s.cit_at(p), InIt<E>{pw->data()}, InIt<E>{pw->data() + pw->size()}));
                    post(s, it, "insert(input range)");
                    return true;
                });
                if constexpr (COPYABLE)
                    if (k <= 3)
                        op(cat_str("insert(", (long)p, ", ilist of ", k, ")"), [=](Sys& s)
                        {
                            if (!pre(s, false)) return false;
                            auto pos = s.cit_at(p);
                            auto it = k == 0   ? R(s.c().insert(pos, std::initializer_list<E>{}))
                                      : k == 1 ? R(s.c().insert(pos, {E((*pw)[0])}))
                                      : k == 2 ? R(s.c().insert(pos, {E((*pw)[0]), E((*pw)[1])}))
                                               : R(s.c().insert(pos, {E((*pw)[0]), E((*pw)[1]), E((*pw)[2])}));
                            post(s, it, "insert(ilist)");
                            return true;
                        });
            }
            // assign and constructors
            auto apply_all = [=](Sys& s)
            {
                if (CIRC && pw->size() > CAP) s.model.assign(pw->end() - CAP, pw->end());
                else s.model = *pw;
            };
            auto preall = [=](Sys&)
            {
                if (CIRC && CAP == 0) return false;
                if (!CIRC && pw->size() > CAP) expect_err(EV_LENGTH, (long)pw->size());
                return true;
            };
            op(cat_str("assign(forward range of ", k, ")"), [=](Sys& s) { if (!preall(s)) return false; R(s.c().assign(FwIt<E>{pw->data()}, FwIt<E>{pw->data() + pw->size()})); apply_all(s); return true; });
            op(cat_str("assign(input range of ", k, ")"), [=](Sys& s) { if (!preall(s)) return false; R(s.c().assign(InIt<E>{pw->data()}, InIt<E>{pw->data() + pw->size()})); apply_all(s); return true; });
            op(cat_str("construct(pointer range of ", k, ")"), [=](Sys& s) { if (!preall(s)) return false; R(s.c().~C()); wipe_slot(0); R((void)new (slot(0)) C(pw->data(), pw->data() + pw->size())); apply_all(s); return true; });
            op(cat_str("construct(input range of ", k, ")"), [=](Sys& s) { if (!preall(s)) return false; R(s.c().~C()); wipe_slot(0); R((void)new (slot(0)) C(InIt<E>{pw->data()}, InIt<E>{pw->data() + pw->size()})); apply_all(s); return true; });
            if constexpr (COPYABLE)
            {
                if (k == 2)
                {
                    op("assign(ilist of 2)", [=](Sys& s) { if (!preall(s)) return false; R(s.c().assign({E((*pw)[0]), E((*pw)[1])})); apply_all(s); return true; });
                    op("construct(ilist of 2)", [=](Sys& s) { if (!preall(s)) return false; R(s.c().~C()); wipe_slot(0); R((void)new (slot(0)) C({E((*pw)[0]), E((*pw)[1])})); apply_all(s); return true; });
                }
            }
        }
        // counts
        for (std::size_t n = 0; n <= CAP + 2; ++n)
        {
            if constexpr (COPYABLE)
            {
                op(cat_str("resize(", (long)n, ",2)"), [=](Sys& s)
                {
                    const E x = mk(2);
                    if (n > CAP) expect_err(EV_LENGTH, (long)n);
                    s.stab_prepare();
                    const auto m0 = s.model.size();
                    R(s.c().resize(n, x));
                    s.model.resize(n, 2);
                    s.stab(0, std::min(m0, n), 0, "resize");
                    return true;
                });
                op(cat_str("assign(", (long)n, ",1)"), [=](Sys& s)
                {
                    const E x = mk(1);
                    if (CIRC && CAP == 0) return false;
                    if (!CIRC && n > CAP) expect_err(EV_LENGTH, (long)n);
                    R(s.c().assign(n, x));
                    s.model.assign(CIRC ? std::min<std::size_t>(n, CAP) : n, 1);
                    return true;
                });
                op(cat_str("construct(", (long)n, ",1)"), [=](Sys& s)
                {
                    const E x = mk(1);
                    if (CIRC && CAP == 0) return false;
                    if (!CIRC && n > CAP) expect_err(EV_LENGTH, (long)n);
                    R(s.c().~C()); wipe_slot(0);
                    R((void)new (slot(0)) C(n, x));
                    s.model.assign(CIRC ? std::min<std::size_t>(n, CAP) : n, 1);
                    return true;
                });
                if constexpr (DEFAULTABLE)
                {
                    op(cat_str("resize(", (long)n, ")"), [=](Sys& s)
                    {
                        if (n > CAP) expect_err(EV_LENGTH, (long)n);
                        R(s.c().resize(n));
                        s.model.resize(n, 0);
                        return true;
                    });
                    op(cat_str("construct(", (long)n, ")"), [=](Sys& s)
                    {
                        if (CIRC && CAP == 0) return false;
                        if (!CIRC && n > CAP) expect_err(EV_LENGTH, (long)n);
                        R(s.c().~C()); wipe_slot(0);
                        R((void)new (slot(0)) C(n));
                        s.model.assign(CIRC ? std::min<std::size_t>(n, CAP) : n, 0);
                        return true;
                    });
                }
            }
#if defined(CONT_VECTOR)
            op(cat_str("reserve(", (long)n, ")"), [=](Sys& s) { if (n > CAP) expect_err(EV_LENGTH, (long)n); R(s.c().reserve(n)); return true; });
#endif
        }
        // erasure
        for (std::size_t p = 0; p <= CAP; ++p)
        {
            op(cat_str("erase(", (long)p, ")"), [=](Sys& s)
            {
                if (p > s.model.size()) return false;
                const auto n = s.model.size();
                if (p == n && CAP == 0) return false;  // would have to form an iterator past a null one
                if (p == n) { expect_err(EV_INVALID); (void)R(s.c().erase(s.cit_at(p))); return true; }
                s.stab_prepare();
                auto it = R(s.c().erase(s.cit_at(p)));
                s.model.erase(s.model.begin() + (long)p);
                s.check_pos(it, p, "erase");
                if (VEC || LIST) s.stab(0, p, 0, "erase");
                if (LIST) s.stab(p + 1, n, -1, "erase");
                return true;
            });
            for (std::size_t q = p; q <= CAP; ++q)
                op(cat_str("erase(", (long)p, ",", (long)q, ")"), [=](Sys& s)
                {
                    if (q > s.model.size()) return false;
                    s.stab_prepare();
                    const auto n = s.model.size();
                    auto it = R(s.c().erase(s.cit_at(p), s.cit_at(q)));
                    s.model.erase(s.model.begin() + (long)p, s.model.begin() + (long)q);
                    s.check_pos(it, p, "erase(range)");
                    if (VEC || LIST) s.stab(0, p, 0, "erase(range)");
                    if (LIST) s.stab(q, n, -(long)(q - p), "erase(range)");
                    return true;
                });
        }
#if !defined(CONT_LIST)
        op("erase(last,first) inverted", [](Sys& s)
        {
            if (s.model.empty()) return false;
            expect_err(EV_INVALID);
            (void)R(s.c().erase(s.cit_at(s.model.size()), s.cit_at(0)));
            return true;
        });
#endif
        for (int v = 0; v <= NVAL; ++v)
        {
            op(cat_str("fixed_containers::erase(c,", v, ")"), [=](Sys& s)
            {
                const E x = mk(v);
                auto r = R(fixed_containers::erase(s.c(), x));
                const auto w = std::erase(s.model, v);
                MC_CHECK(r == w, SEM, "erase(c, value) returned ", (long)r, " expected ", (long)w);
                return true;
            });
#if defined(CONT_LIST)
            op(cat_str("remove(", v, ")"), [=](Sys& s)
            {
                const E x = mk(v);
                s.stab_prepare();
                auto r = R(s.c().remove(x));
                const auto w = std::erase(s.model, v);
                MC_CHECK(r == w, SEM, "remove returned ", (long)r, " expected ", (long)w);
                auto a = s.addrs(s.c());
                std::size_t k = 0;
                for (const void* q : a) { while (k < s.before_addrs.size() && s.before_addrs[k] != q) ++k; MC_CHECK(k < s.before_addrs.size(), STAB, "remove moved elements"); }
                return true;
            });
            op(cat_str("remove_if(<=", v, ")"), [=](Sys& s)
            {
                auto r = R(s.c().remove_if([=](const E& e) { return val(e) <= v; }));
                const auto w = std::erase_if(s.model, [=](int e) { return e <= v; });
                MC_CHECK(r == w, SEM, "remove_if returned ", (long)r, " expected ", (long)w);
                return true;
            });
#endif
        }
#if defined(CONT_LIST)
        for (std::size_t j = 0; j < CAP; ++j)
            op(cat_str("remove(own ", (long)j, ")"), [=](Sys& s)
            {
                if (j >= s.model.size()) return false;
                const int v = s.model[j];
                auto r = R(s.c().remove(*s.cit_at(j)));
                const auto w = std::erase(s.model, v);
                MC_CHECK(r == w, SEM, "remove(own) returned ", (long)r, " expected ", (long)w);
                return true;
            });
#endif
        for (int k = 0; k < 4; ++k)
            op(cat_str("erase_if(", k == 0 ? "none" : k == 1 ? "all" : k == 2 ? "odd" : "even", ")"), [=](Sys& s)
            {
                auto pr = [=](int x) { return k == 0 ? false : k == 1 ? true : k == 2 ? (x % 2 != 0) : (x % 2 == 0); };
                auto r = R(fixed_containers::erase_if(s.c(), [=](const E& e) { return pr(val(e)); }));
                const auto w = std::erase_if(s.model, pr);
                MC_CHECK(r == w, SEM, "erase_if returned ", (long)r, " expected ", (long)w);
                return true;
            });
        copies();
    }
    // after-op helper: destroys slot i
    void kill(int i)
    {
        R(reinterpret_cast<C*>(slot(i))->~C());
        wipe_live(i);
    }
    void wipe_live(int i)
    {
        MC_CHECK(!TRACKED || g_live_count[i] == 0, LIFE, "destructor left ", (long)g_live_count[i], " elements alive");
        wipe_slot(i);
    }
    // exercise a container that must be functional and hold m
    void poke(C& x, const V& m, const char* what)
    {
        MC_CHECK(eqv(x, m), COPY | SEM, what, ": content differs, expected ", show(m));
        if (!eqv(x, m)) return;
        V w = m;
        if (w.size() < CAP)
        {
            R(x.push_back(mk(3)));
            w.push_back(3);
            MC_CHECK(eqv(x, w), COPY | SEM, what, ": broken after push_back");
        }
        if (!w.empty())
        {
            R((void)x.erase(x.begin()));
            w.erase(w.begin());
            MC_CHECK(eqv(x, w), COPY | SEM, what, ": broken after erase");
        }
#if !defined(CONT_VECTOR)
        if (w.size() < CAP)
        {
            R(x.push_front(mk(2)));
            w.insert(w.begin(), 2);
            MC_CHECK(eqv(x, w), COPY | SEM, what, ": broken after push_front");
        }
#endif
    }
    void valid_after_move(C& x, const char* what)
    {
        MC_CHECK(x.size() <= CAP, COPY, what, ": moved-from size");
        std::size_t n = 0;
        for (auto& y : x) { (void)y; ++n; }
        MC_CHECK(n == x.size(), COPY, what, ": moved-from iteration");
        R(x.clear());
        MC_CHECK(x.empty(), COPY, what, ": moved-from not clearable");
        if (CAP > 0)
        {
            for (std::size_t i = 0; i < CAP; ++i) R(x.push_back(mk((int)i + 1)));
            for (std::size_t i = 0; i < CAP; ++i) R(x.pop_back());
        }
    }
    void copies()
    {
        if constexpr (COPYABLE)
        {
            op("copy-construct, use the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "copying changed the source");
                MC_CHECK(R(s.c() == s.d()), COPY | CMP, "copy != original");
                s.poke(s.d(), s.model, "copy");
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source");
                s.kill(1);
                MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "destroying the copy changed the source");
                return true;
            });
            op("copy-construct, continue with the copy", [](Sys& s)
            {
                R((void)new (slot(1)) C(std::as_const(s.c())));
                s.kill(0);
                R((void)new (slot(0)) C(std::as_const(s.d())));
                s.kill(1);
                return true;
            });
            op("self copy-assign", [](Sys& s) { C& a = s.c(); const C& b = s.c(); C& r = R(a = b); MC_CHECK(&r == &a, COPY | SEM, "operator= must return *this"); return true; });
        }
        op("self move-assign", [](Sys& s) { C& a = s.c(); C& b = s.c(); R((void)(a = std::move(b))); return true; });
        op("move-construct there and back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "move construction lost content");
            s.valid_after_move(s.c(), "move-construct");
            s.kill(0);
            R((void)new (slot(0)) C(std::move(s.d())));
            s.valid_after_move(s.d(), "move-construct");
            s.kill(1);
            return true;
        });
        for (int k = 0; k < 3; ++k)
        {
            const std::size_t n = k == 0 ? 0 : k == 1 ? 1 : CAP;
            auto preset = [=](Sys&, C* x, V& w)
            {
                for (std::size_t i = 0; i < n && i < CAP; ++i)
                {
                    const int v = (int)(i % 3) + 1;
#if defined(CONT_VECTOR)
                    R(x->push_back(mk(v)));
                    w.push_back(v);
#else
                    if (i % 2) { R(x->push_front(mk(v))); w.insert(w.begin(), v); }
                    else { R(x->push_back(mk(v))); w.push_back(v); }
#endif
                }
            };
            if constexpr (COPYABLE)
                op(cat_str("copy-assign from preset ", k), [=](Sys& s)
                {
                    R((void)new (slot(1)) C());
                    V w;
                    preset(s, &s.d(), w);
                    R((void)(s.c() = std::as_const(s.d())));
                    MC_CHECK(eqv(s.d(), w), COPY | SEM, "copy assignment changed the source");
                    s.model = w;
                    s.kill(1);
                    return true;
                });
            op(cat_str("move-assign from preset ", k), [=](Sys& s)
            {
                R((void)new (slot(1)) C());
                V w;
                preset(s, &s.d(), w);
                R((void)(s.c() = std::move(s.d())));
                s.model = w;
                MC_CHECK(eqv(s.c(), w), COPY | SEM, "move assignment lost content");
                s.valid_after_move(s.d(), "move-assign");
                s.kill(1);
                return true;
            });
            op(cat_str("swap with preset ", k), [=](Sys& s)
            {
                R((void)new (slot(1)) C());
                V w;
                preset(s, &s.d(), w);
                const V old = s.model;
                { using std::swap; R(swap(s.c(), s.d())); }
                s.model = w;
                MC_CHECK(eqv(s.d(), old), COPY | SEM, "swap lost content");
                s.kill(1);
                return true;
            });
        }
        if constexpr (TRIVIAL)
            op("byte-relocate to another address, continue there", [](Sys& s)
            {
                // continue with one mutation at the new address, then come back
                std::memcpy(slot(1), slot(0), g_slot_size);
                std::memset(slot(0), 0x3C, g_slot_size);
                MC_CHECK(eqv(s.d(), s.model), RELOC, "relocated content differs");
                if (s.model.size() < CAP) { R(s.d().push_back(mk(1))); s.model.push_back(1); }
                else if (CAP > 0) { R((void)s.d().erase(s.d().begin())); s.model.erase(s.model.begin()); }
                MC_CHECK(eqv(s.d(), s.model), RELOC, "relocated container misbehaves");
                std::memcpy(slot(0), slot(1), g_slot_size);
                wipe_slot(1);
                return true;
            });
    }
    const char* pair_assign_name(int k) { static const char* n[] = {"copy-assign", "move-assign", "swap"}; return n[k]; }
    // leaves the result in slot 0 (its model is that of the operand), slot 1 destroyed
    bool pair_assign(int k)
    {
        if (k == 0)
        {
            if constexpr (std::is_copy_assignable_v<C> && COPYABLE) R((void)(c() = std::as_const(d())));
            else return false;
        }
        else if (k == 1) R((void)(c() = std::move(d())));
        else { using std::swap; R(swap(c(), d())); }
        kill(1);
        return true;
    }
    // ---- pairs of reachable states
    bool pair_ops(const V&, const V&) { return true; }
    int pair_op_count() { return 5; }
    const char* pair_op_name(int k)
    {
        static const char* n[] = {"compare", "copy-assign", "move-assign", "swap", "copy-construct after destroying"};
        return n[k];
    }
    bool pair_op(int k, const V& mx, const V& my)
    {
        switch (k)
        {
        case 0:
        {
            if ((g_mask & CMP) == 0) return false;
            const C& x = c();
            const C& y = d();
            MC_CHECK((R(x == y)) == (mx == my), CMP, "==");
            MC_CHECK((R(x != y)) == (mx != my), CMP, "!=");
            MC_CHECK((R(x <=> y)) == (mx <=> my), CMP, "<=>");
            MC_CHECK((R(x < y)) == (mx < my) && (R(x > y)) == (mx > my) && (R(x <= y)) == (mx <= my) && (R(x >= y)) == (mx >= my), CMP, "ordering");
            break;
        }
        case 1:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            if constexpr (COPYABLE)
            {
                R((void)(c() = std::as_const(d())));
                MC_CHECK(eqv(d(), my), COPY, "copy-assign changed the source");
                poke(c(), my, "copy-assigned");
                MC_CHECK(eqv(d(), my), COPY, "using the copy changed the source");
                break;
            }
            else return false;
        case 2:
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            R((void)(c() = std::move(d())));
            poke(c(), my, "move-assigned");
            valid_after_move(d(), "move-assign");
            break;
        case 3:
        {
            if ((g_mask & (COPY | LIFE)) == 0) return false;
            using std::swap;
            R(swap(c(), d()));
            MC_CHECK(eqv(c(), my) && eqv(d(), mx), COPY, "swap");
            break;
        }
        default:
            return false;
        }
        model = my;
        R(c().~C());
        wipe_live(0);
        kill(1);
        model.clear();
        return true;
    }
};

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(C));
#ifdef POLICY_ABORT
    g_abort_policy = true;
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
    g_program = std::string(NAME) + "<" STR(ELEM) "," + std::to_string(CAP) + "> values=" + std::to_string(NVAL)
#ifdef POLICY_ABORT
        + " default-policy"
#endif
        ;
    using Sys = SysT<C, C2, E>;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
