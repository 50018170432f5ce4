// OptionalReference: closure of the reachable states of two optional references over three referents (two of
// them equal-valued in many states), under every operation, compared with optional pointers.
#include "mc.hpp"
#include "fixed_containers/optional_reference.hpp"
using namespace mc;
namespace fc = fixed_containers;

struct RecChecking
{
    [[noreturn]] static void bad_optional_access_error(const fc::std_transition::source_location&) noexcept { raise_event(EV_EMPTY); }
};
// referent types
struct Plain { int x; auto operator<=>(const Plain&) const = default; };
struct Sneaky  // operator& must not be used to take its address
{
    int x;
    Sneaky* operator&() { return nullptr; }
    const Sneaky* operator&() const { return nullptr; }
    auto operator<=>(const Sneaky&) const = default;
};
struct Weak  // equivalence is coarser than identity
{
    int x;
    std::weak_ordering operator<=>(const Weak& o) const { return o.x / 2 <=> x / 2; }
    bool operator==(const Weak& o) const { return x / 2 == o.x / 2; }
};
template <class T> struct Val { static T mk(int v) { return T{v}; } static int get(const T& t) { return t.x; } };
template <> struct Val<int> { static int mk(int v) { return v; } static int get(int t) { return t; } };
template <> struct Val<double> { static double mk(int v) { return v == 2 ? std::nan("") : v; } static int get(double t) { return std::isnan(t) ? 2 : (int)t; } };

static constexpr int NREF = 3;
struct Model
{
    int p[2] = {-1, -1};  // -1: empty, else the referent
    int v[NREF] = {};
    auto operator<=>(const Model&) const = default;
};
static std::string show(const Model& m) { return cat_str("a=", m.p[0], " b=", m.p[1], " values=", m.v[0], m.v[1], m.v[2]); }

template <class U, class Check>  // U may be const
struct Sys
{
    using B = std::remove_const_t<U>;
    using O = fc::OptionalReference<U, Check>;
    static inline B refs[NREF];
    alignas(O) static inline unsigned char buf[3][sizeof(O)];
    static inline int nval = 2;
    struct Node { Model m; std::array<unsigned char, 2 * sizeof(O)> bytes; int parent; std::string op; };
    static inline std::vector<Node> nodes;
    static inline std::map<std::pair<Model, std::array<unsigned char, 2 * sizeof(O)>>, int> seen;
    static inline Model m;
    static inline const char* name;

    static O& obj(int i) { return *std::launder(reinterpret_cast<O*>(buf[i])); }
    static void restore(int n)
    {
        m = nodes[n].m;
        std::memcpy(buf[0], nodes[n].bytes.data(), sizeof(O));
        std::memcpy(buf[1], nodes[n].bytes.data() + sizeof(O), sizeof(O));
        for (int i = 0; i < NREF; ++i) std::construct_at(std::addressof(refs[i]), Val<B>::mk(m.v[i]));
    }
    static const U* want(int k) { return m.p[k] < 0 ? nullptr : std::addressof(refs[m.p[k]]); }
    static void check_referents()
    {
        for (int i = 0; i < NREF; ++i) MC_CHECK(Val<B>::get(refs[i]) == m.v[i], MISC, "referent ", i, " has value ", Val<B>::get(refs[i]), " expected ", m.v[i]);
    }
    static bool same(std::partial_ordering a, std::partial_ordering b) { return a == b || (a != a && b != b) || (a == std::partial_ordering::unordered && b == std::partial_ordering::unordered); }
    template <class X, class Y>
    static void relations(const X& x, const Y& y, std::partial_ordering w, bool eq, const char* what)
    {
        MC_CHECK((x == y) == eq && (x != y) == !eq && (y == x) == eq && (y != x) == !eq, MISC, what, ": equality, expected ", eq);
        MC_CHECK(same(x <=> y, w), MISC, what, ": <=>");
        MC_CHECK((x < y) == (w < 0) && (x <= y) == (w <= 0) && (x > y) == (w > 0) && (x >= y) == (w >= 0), MISC, what, ": ordering");
        MC_CHECK((y > x) == (w < 0) && (y >= x) == (w <= 0) && (y < x) == (w > 0) && (y <= x) == (w >= 0), MISC, what, ": ordering, swapped operands");
    }
    // Every observer of object i of the current state
    static void observe(int i)
    {
        O& o = obj(i);
        const O& c = o;
        const U* w = want(i);
        const bool has = w != nullptr;
        MC_CHECK(o.has_value() == has && c.has_value() == has && static_cast<bool>(o) == has && static_cast<bool>(c) == has, MISC, "has_value, expected ", has);
        relations(c, std::nullopt, has ? std::partial_ordering::greater : std::partial_ordering::equivalent, !has, "against nullopt");
        if (has)
        {
            MC_CHECK(std::addressof(*o) == w && std::addressof(*c) == w && std::addressof(o.value()) == w && std::addressof(c.value()) == w, MISC, "does not denote the referent");
            MC_CHECK(o.operator->() == w && c.operator->() == w, MISC, "operator->");
        }
        for (int f = 0; f < NREF; ++f)
            MC_CHECK(std::addressof(c.value_or(static_cast<U&>(refs[f]))) == (has ? w : std::addressof(refs[f])), MISC, "value_or(referent ", f, ")");
        for (int v = 0; v < nval; ++v)
        {
            const B val = Val<B>::mk(v);
            relations(c, val, has ? std::partial_ordering(*w <=> val) : std::partial_ordering::less, has && *w == val, "against a value");
        }
    }
    static void observe_all()
    {
        for (int i = 0; i < 2; ++i) observe(i);
        const U *a = want(0), *b = want(1);
        const std::partial_ordering w = a && b ? std::partial_ordering(*a <=> *b) : std::partial_ordering((a != nullptr) <=> (b != nullptr));
        relations(std::as_const(obj(0)), std::as_const(obj(1)), w, a && b ? *a == *b : !a && !b, "against an optional reference");
        // the same, across constness and checking policies
        using O2 = fc::OptionalReference<const B, RecChecking>;
        const O2 other = b ? O2(*b) : O2();
        relations(std::as_const(obj(0)), other, w, a && b ? *a == *b : !a && !b, "against another kind of optional reference");
        check_referents();
    }
    static std::string trace(int n)
    {
        std::vector<std::string> t;
        for (int k = n; k >= 0; k = nodes[k].parent) t.push_back(nodes[k].op + " -> " + show(nodes[k].m));
        std::string s = "[";
        for (auto it = t.rbegin(); it != t.rend(); ++it) s += (s.size() > 1 ? "," : "") + ("\"" + jesc(*it) + "\"");
        return s + "]";
    }
    static void add(int parent, const std::string& op)
    {
        Node n{m, {}, parent, op};
        std::memcpy(n.bytes.data(), buf[0], sizeof(O));
        std::memcpy(n.bytes.data() + sizeof(O), buf[1], sizeof(O));
        if (!seen.try_emplace({n.m, n.bytes}, (int)nodes.size()).second) return;
        nodes.push_back(n);
        ++g_states;
        run(op + " (observing the result)", EV_NONE, [&] { observe_all(); });
    }
    template <class F>
    static bool run(const std::string& op, int expect, F&& f)
    {
        g_current_op = cat_str(name, ": ", op);
        ++g_transitions;
        const auto san0 = g_san_reports;
        const auto al0 = g_allocs;
        const Event ev = guarded(f);
        const int want_ev = expect == EV_NONE ? EV_NONE : std::is_same_v<Check, RecChecking> ? EV_EMPTY : EV_ABORT;
        if (want_ev != EV_NONE) ++g_errs_expected;
        if (ev.kind != want_ev) fail(MISC | CRASH, cat_str("ended with ", ev_name(ev.kind), ", expected ", ev_name(want_ev)));
        MC_CHECK(g_san_reports == san0, MISC | LIFE, "memory error or undefined behaviour reported by the sanitizer");
        (void)al0;
        return ev.kind == EV_NONE;
    }
    // run op in state n; f performs it on the real objects and on the model
    template <class F>
    static void step(int n, const std::string& op, F&& f)
    {
        restore(n);
        if (run(op, EV_NONE, f)) { run(op + " (referents)", EV_NONE, [&] { check_referents(); }); add(n, op); }
    }
    template <class F>
    static void misuse(int n, const std::string& op, F&& f)
    {
        restore(n);
        run(op, EV_EMPTY, f);
        g_trace_fn = [n] { return trace(n); };
        run(op + " (after the report)", EV_NONE, [&] { observe_all(); });
    }
    static void expand(int n)
    {
        g_trace_fn = [n] { return trace(n); };
        for (int i = 0; i < 2; ++i)
        {
            const int j = 1 - i;
            const std::string o = i ? "b" : "a";
            step(n, o + " = nullopt", [&] { O& r = (obj(i) = std::nullopt); MC_CHECK(&r == &obj(i), MISC, "result of = nullopt"); m.p[i] = -1; });
            step(n, o + ".reset()", [&] { obj(i).reset(); m.p[i] = -1; });
            step(n, o + " = {}", [&] { obj(i) = O{}; m.p[i] = -1; });
            step(n, o + " constructed empty", [&] { obj(i).~O(); ::new (buf[i]) O(); m.p[i] = -1; });
            step(n, o + " constructed from nullopt", [&] { obj(i).~O(); ::new (buf[i]) O(std::nullopt); m.p[i] = -1; });
            step(n, o + " constructed from a null pointer", [&] { obj(i).~O(); ::new (buf[i]) O(static_cast<U*>(nullptr)); m.p[i] = -1; });
            step(n, o + " constructed from an empty unique_ptr", [&] { obj(i).~O(); std::unique_ptr<U> u; ::new (buf[i]) O(u); m.p[i] = -1; });
            step(n, o + " copy-assigned from the other", [&] { O& r = (obj(i) = std::as_const(obj(j))); MC_CHECK(&r == &obj(i), MISC, "result of ="); m.p[i] = m.p[j]; });
            step(n, o + " copy-assigned from itself", [&] { obj(i) = std::as_const(obj(i)); });
            step(n, o + " move-assigned from the other", [&] { obj(i) = std::move(obj(j)); m.p[i] = m.p[j]; });
            step(n, o + " copy-constructed from the other", [&] { obj(i).~O(); ::new (buf[i]) O(std::as_const(obj(j))); m.p[i] = m.p[j]; });
            step(n, o + " move-constructed from the other", [&] { obj(i).~O(); ::new (buf[i]) O(std::move(obj(j))); m.p[i] = m.p[j]; });
            for (int k = 0; k < NREF; ++k)
            {
                const std::string r = cat_str(" referent ", k);
                step(n, o + ".emplace" + r, [&] { U& x = obj(i).emplace(refs[k]); MC_CHECK(std::addressof(x) == std::addressof(refs[k]), MISC, "result of emplace"); m.p[i] = k; });
                step(n, o + " = O" + r, [&] { obj(i) = O(refs[k]); m.p[i] = k; });
                step(n, o + " constructed with" + r, [&] { obj(i).~O(); ::new (buf[i]) O(static_cast<U&>(refs[k])); m.p[i] = k; });
                step(n, o + " constructed with the address of" + r, [&] { obj(i).~O(); ::new (buf[i]) O(static_cast<U*>(std::addressof(refs[k]))); m.p[i] = k; });
                step(n, o + " constructed with a unique_ptr to" + r, [&] { obj(i).~O(); std::unique_ptr<U> u(std::addressof(refs[k])); ::new (buf[i]) O(u); (void)u.release(); m.p[i] = k; });
            }
            if (m.p[i] = nodes[n].m.p[i]; m.p[i] >= 0)
            {
                if constexpr (!std::is_const_v<U>)
                    for (int v = 0; v < nval; ++v)
                    {
                        step(n, o + cat_str(": *o = ", v), [&] { *obj(i) = Val<B>::mk(v); m.v[m.p[i]] = v; });
                        step(n, o + cat_str(": value() = ", v), [&] { obj(i).value() = Val<B>::mk(v); m.v[m.p[i]] = v; });
                        step(n, o + cat_str(": *operator->() = ", v), [&] { *obj(i).operator->() = Val<B>::mk(v); m.v[m.p[i]] = v; });
                        step(n, o + cat_str(": value_or() = ", v), [&] { static B fb; obj(i).value_or(fb) = Val<B>::mk(v); m.v[m.p[i]] = v; });
                    }
            }
            else
            {
                misuse(n, o + ": *", [&] { (void)*obj(i); });
                misuse(n, o + ": * const", [&] { (void)*std::as_const(obj(i)); });
                misuse(n, o + ": ->", [&] { (void)obj(i).operator->(); });
                misuse(n, o + ": -> const", [&] { (void)std::as_const(obj(i)).operator->(); });
                misuse(n, o + ": value()", [&] { (void)obj(i).value(); });
                misuse(n, o + ": value() const", [&] { (void)std::as_const(obj(i)).value(); });
            }
        }
        step(n, "swap(a, b)", [&] { using std::swap; swap(obj(0), obj(1)); std::swap(m.p[0], m.p[1]); });
        step(n, "std::exchange(a, b)", [&] { O old = std::exchange(obj(0), obj(1)); MC_CHECK(old.has_value() == (m.p[0] >= 0) && (!old.has_value() || std::addressof(*old) == want(0)), MISC, "old value"); m.p[0] = m.p[1]; });
        if constexpr (!std::is_const_v<U>)
            for (int k = 0; k < NREF; ++k)
                for (int v = 0; v < nval; ++v) step(n, cat_str("referent ", k, " = ", v), [&] { refs[k] = Val<B>::mk(v); m.v[k] = v; });
    }
    static void explore(const char* nm, int nv)
    {
        name = nm;
        nval = nv;
        nodes.clear();
        seen.clear();
        static_assert(std::is_trivially_copyable_v<O> && sizeof(O) == sizeof(void*));
        for (int code = 0; code < nv * nv * nv; ++code)
        {
            // const referents cannot be written through the reference: start from every valuation
            if (!std::is_const_v<U> && code != 0) break;
            m = Model{};
            m.v[0] = code % nv; m.v[1] = code / nv % nv; m.v[2] = code / nv / nv;
            for (int i = 0; i < NREF; ++i) std::construct_at(std::addressof(refs[i]), Val<B>::mk(m.v[i]));
            ::new (buf[0]) O();
            ::new (buf[1]) O();
            add(-1, "start");
        }
        for (std::size_t n = 0; n < nodes.size(); ++n) expand((int)n);
        const std::size_t all = (NREF + 1) * (NREF + 1) * (std::size_t)(nv * nv * nv);
        g_trace_fn = nullptr;
        g_current_op = nm;
        MC_CHECK(nodes.size() >= all, MISC, "only ", (long)nodes.size(), " of ", (long)all, " states can be reached");
    }
};
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    Sys<int, RecChecking>::explore("int", NVAL);
    Sys<const int, RecChecking>::explore("const int", NVAL);
    Sys<Plain, RecChecking>::explore("class", 2);
    Sys<const Sneaky, RecChecking>::explore("const class with operator&", 2);
    Sys<Sneaky, RecChecking>::explore("class with operator&", 2);
    Sys<Weak, RecChecking>::explore("weakly ordered", 3);
    Sys<double, RecChecking>::explore("double with NaN", 3);
    Sys<int, fc::customize::OptionalReferenceAbortChecking<int>>::explore("int, default policy", 2);
    Sys<const double, fc::customize::OptionalReferenceAbortChecking<const double>>::explore("const double, default policy", 3);
    g_notes["closed"] = 1;
    finish(0);
}
