// Struct views and reflection: a family of struct shapes (every menu type in every field position, every ordered
// selection of fields as the sub-struct) x every dynamic shape of the viewed object (all container sizes, all
// optional states, all enumerators), each bound by the real code and compared with the addresses of the fields.
#include "mc.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/recursive_reflection.hpp"
#include "fixed_containers/reflection.hpp"
#include "fixed_containers/struct_decomposition.hpp"
#include "fixed_containers/struct_view.hpp"
#include <bitset>
#include <chrono>
using namespace mc;
namespace fc = fixed_containers;
namespace sv = fc::struct_view;
namespace rr = fc::recursive_reflection;
#define CK(c, ...) MC_CHECK(c, MISC, __VA_ARGS__)
static std::string g_family;
template <class F>
int item(const std::string& what, F&& f, int expect = EV_NONE)
{
    g_current_op = g_family.empty() ? what : g_family + ": " + what;
    ++g_transitions;
    const auto san0 = g_san_reports;
    const Event ev = guarded([&] { f(); });
    if (expect != EV_NONE) ++g_errs_expected;
    if (ev.kind != expect) fail(MISC | CRASH, cat_str("ended with ", ev_name(ev.kind), ", expected ", ev_name(expect)));
    CK(g_san_reports == san0, "memory error or undefined behaviour reported by the sanitizer");
    return ev.kind;
}

// ---------------------------------------------------------------- struct shapes
template <class A> struct S1 { A alpha{}; };
template <class A, class B> struct S2 { A alpha{}; B beta{}; };
template <class A, class B, class C> struct S3 { A alpha{}; B beta{}; C gamma{}; };
template <class A> struct U_a { A alpha{}; };
template <class B> struct U_b { B beta{}; };
template <class C> struct U_c { C gamma{}; };
#define U2(N, TX, X, TY, Y) template <class TX, class TY> struct N { TX X{}; TY Y{}; }
U2(U_ab, A, alpha, B, beta); U2(U_ba, B, beta, A, alpha); U2(U_ac, A, alpha, C, gamma); U2(U_ca, C, gamma, A, alpha); U2(U_bc, B, beta, C, gamma); U2(U_cb, C, gamma, B, beta);
#define U3(N, TX, X, TY, Y, TZ, Z) template <class TX, class TY, class TZ> struct N { TX X{}; TY Y{}; TZ Z{}; }
U3(U_abc, A, alpha, B, beta, C, gamma); U3(U_acb, A, alpha, C, gamma, B, beta); U3(U_bac, B, beta, A, alpha, C, gamma);
U3(U_bca, B, beta, C, gamma, A, alpha); U3(U_cab, C, gamma, A, alpha, B, beta); U3(U_cba, C, gamma, B, beta, A, alpha);

enum class Colour : std::uint8_t { RED, GREEN, BLUE };
template <class T> struct is_vec : std::false_type {};
template <class T, std::size_t N> struct is_vec<fc::FixedVector<T, N>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, std::size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};
template <class T> inline constexpr bool IS_BITSET = false;
template <std::size_t N> inline constexpr bool IS_BITSET<std::bitset<N>> = true;
template <class T> inline constexpr bool IS_DURATION = false;
template <class R, class P> inline constexpr bool IS_DURATION<std::chrono::duration<R, P>> = true;
template <class T> concept Leaf = std::is_arithmetic_v<T> || IS_BITSET<std::remove_cv_t<T>> || IS_DURATION<std::remove_cv_t<T>>;
template <class T> concept Agg = requires(T t) { t.alpha; } || requires(T t) { t.beta; } || requires(T t) { t.gamma; };

// V = 0: const pointers, nested structs keep one field; V = 1: plain pointers, nested structs reversed
template <class T, int V> struct SubOf;
template <Leaf T, int V> struct SubOf<T, V> { using type = std::conditional_t<V == 0, const T*, T*>; };
template <int V> struct SubOf<Colour, V> { using type = std::string_view; };
template <class T, std::size_t N, int V> struct SubOf<std::array<T, N>, V> { using type = std::array<typename SubOf<T, V>::type, N>; };
template <class T, std::size_t N, int V> struct SubOf<fc::FixedVector<T, N>, V> { using type = fc::FixedVector<typename SubOf<T, V>::type, N>; };
template <class T, int V> struct SubOf<std::optional<T>, V> { using type = std::optional<typename SubOf<T, V>::type>; };
template <class A, int V> struct SubOf<S1<A>, V> { using type = U_a<typename SubOf<A, V>::type>; };
template <class A, class B, int V> struct SubOf<S2<A, B>, V> { using type = std::conditional_t<V == 0, U_b<typename SubOf<B, V>::type>, U_ba<typename SubOf<B, V>::type, typename SubOf<A, V>::type>>; };
template <class T, int V> using Sub = typename SubOf<T, V>::type;

// ---------------------------------------------------------------- enumeration of dynamic shapes
struct Chooser
{
    std::vector<int> pick, width;
    std::size_t at = 0;
    bool maximal = false;
    int choose(int n)
    {
        if (maximal) return n - 1;
        if (at == pick.size()) { pick.push_back(0); width.push_back(n); }
        return pick[at++];
    }
    bool next()
    {
        pick.resize(at); width.resize(at);
        while (!pick.empty() && pick.back() + 1 == width.back()) { pick.pop_back(); width.pop_back(); }
        at = 0;
        if (pick.empty()) return false;
        ++pick.back();
        return true;
    }
    std::string str() const { std::string s; for (std::size_t i = 0; i < at; ++i) s += std::to_string(pick[i]); return s.empty() ? "-" : s; }
};
static long g_leaf;
template <class T>
void build(T& x, Chooser& ch)
{
    if constexpr (std::is_same_v<T, bool>) x = (++g_leaf % 2) != 0;
    else if constexpr (std::is_arithmetic_v<T>) x = (T)++g_leaf;
    else if constexpr (IS_BITSET<std::remove_cv_t<T>>) x = T((unsigned long)++g_leaf);
    else if constexpr (IS_DURATION<std::remove_cv_t<T>>) x = T(++g_leaf);
    else if constexpr (std::is_same_v<T, Colour>) x = (Colour)ch.choose(3);
    else if constexpr (is_vec<T>::value) { x.resize((std::size_t)ch.choose((int)T::static_max_size() + 1)); for (auto& y : x) build(y, ch); }
    else if constexpr (is_arr<T>::value) { for (auto& y : x) build(y, ch); }
    else if constexpr (is_opt<T>::value) { if (ch.choose(2)) { x.emplace(); build(*x, ch); } else x.reset(); }
    else
    {
        if constexpr (requires { x.alpha; }) build(x.alpha, ch);
        if constexpr (requires { x.beta; }) build(x.beta, ch);
        if constexpr (requires { x.gamma; }) build(x.gamma, ch);
    }
}
// the observable value of an object
template <class T>
void dump(const T& x, std::string& o)
{
    if constexpr (std::is_arithmetic_v<T>) o += std::to_string(x) + ",";
    else if constexpr (IS_BITSET<std::remove_cv_t<T>>) o += x.to_string() + ",";
    else if constexpr (IS_DURATION<std::remove_cv_t<T>>) o += std::to_string(x.count()) + ",";
    else if constexpr (std::is_same_v<T, Colour>) o += std::to_string((int)x) + ",";
    else if constexpr (is_vec<T>::value || is_arr<T>::value) { o += "["; for (auto& y : x) dump(y, o); o += "]"; }
    else if constexpr (is_opt<T>::value) { if (x) { o += "("; dump(*x, o); o += ")"; } else o += "none,"; }
    else
    {
        o += "{";
        if constexpr (requires { x.alpha; }) dump(x.alpha, o);
        if constexpr (requires { x.beta; }) dump(x.beta, o);
        if constexpr (requires { x.gamma; }) dump(x.gamma, o);
        o += "}";
    }
}
template <class T> std::string dump(const T& x) { std::string o; dump(x, o); return o; }
template <class T>
constexpr bool has_optional()
{
    if constexpr (is_opt<T>::value) return true;
    else if constexpr (is_vec<T>::value || is_arr<T>::value) return has_optional<typename T::value_type>();
    else if constexpr (Agg<T>)
    {
        bool r = false;
        if constexpr (requires(T t) { t.alpha; }) r = r || has_optional<decltype(T::alpha)>();
        if constexpr (requires(T t) { t.beta; }) r = r || has_optional<decltype(T::beta)>();
        if constexpr (requires(T t) { t.gamma; }) r = r || has_optional<decltype(T::gamma)>();
        return r;
    }
    else return false;
}
// ---------------------------------------------------------------- oracle
template <class U, class T>
void match(const U& u, const T& t, const std::string& path)
{
    if constexpr (Leaf<T>) CK(u == std::addressof(t), path, " does not point to the field of that name");
    else if constexpr (std::is_same_v<T, Colour>)
    {
        static const std::string_view n[] = {"RED", "GREEN", "BLUE"};
        CK(u == n[(int)t], path, " is not the name of the enumerator");
    }
    else if constexpr (is_vec<T>::value || is_arr<T>::value)
    {
        CK(u.size() == t.size(), path, " has size ", (long)u.size(), " expected ", (long)t.size());
        for (std::size_t i = 0; i < std::min<std::size_t>(u.size(), t.size()); ++i) match(u[i], t[i], cat_str(path, "[", (long)i, "]"));
    }
    else if constexpr (is_opt<T>::value)
    {
        CK(u.has_value() == t.has_value(), path, " has_value() is ", u.has_value(), " expected ", t.has_value());
        if (u.has_value() && t.has_value()) match(*u, *t, path + "?");
    }
    else
    {
        if constexpr (requires { u.alpha; }) match(u.alpha, t.alpha, path + ".alpha");
        if constexpr (requires { u.beta; }) match(u.beta, t.beta, path + ".beta");
        if constexpr (requires { u.gamma; }) match(u.gamma, t.gamma, path + ".gamma");
    }
}
// static paths of a type (pre-order), as the documentation defines them
template <class T>
void paths(const std::string& p, std::vector<std::string>& all, std::vector<std::string>& properties)
{
    all.push_back(p);
    if constexpr (!Agg<T>) properties.push_back(p);
    auto sub = [&](const char* s) { return p.empty() ? std::string(s) : p + "." + s; };
    if constexpr (is_vec<T>::value || is_arr<T>::value) paths<typename T::value_type>(sub("data[:]"), all, properties);
    else if constexpr (is_opt<T>::value) paths<typename T::value_type>(sub("value()"), all, properties);
    else if constexpr (Agg<T>)
    {
        if constexpr (requires(T t) { t.alpha; }) paths<decltype(T::alpha)>(sub("alpha"), all, properties);
        if constexpr (requires(T t) { t.beta; }) paths<decltype(T::beta)>(sub("beta"), all, properties);
        if constexpr (requires(T t) { t.gamma; }) paths<decltype(T::gamma)>(sub("gamma"), all, properties);
    }
}
// expected depth-first visit of an object: every path once, containers through their first element
template <class T>
void visit(const T& x, const std::string& p, std::vector<std::pair<std::string, const void*>>& out, bool present)
{
    auto sub = [&](const char* s) { return p.empty() ? std::string(s) : p + "." + s; };
    auto at = [&](const auto& y, const char* s, bool pr) { visit(y, sub(s), out, pr); };
    out.emplace_back("+" + p, present ? std::addressof(x) : nullptr);
    if constexpr (is_vec<T>::value || is_arr<T>::value)
    {
        static const typename T::value_type dummy{};
        if (x.empty()) at(dummy, "data[:]", false); else at(x[0], "data[:]", present);
    }
    else if constexpr (is_opt<T>::value)
    {
        static const typename T::value_type dummy{};
        if (!x) at(dummy, "value()", false); else at(*x, "value()", present);
    }
    else if constexpr (Agg<T>)
    {
        if constexpr (requires { x.alpha; }) at(x.alpha, "alpha", present);
        if constexpr (requires { x.beta; }) at(x.beta, "beta", present);
        if constexpr (requires { x.gamma; }) at(x.gamma, "gamma", present);
    }
    out.emplace_back("-" + p, present ? std::addressof(x) : nullptr);
}
// address of the element of `x` that a path and the indices along it denote (nullptr: not present)
template <class T>
const void* locate(const T& x, const sv::PathNameChain& c, std::size_t k, const sv::Indices& ix, std::size_t d)
{
    if (k == c.size()) return std::addressof(x);
    if constexpr (is_vec<T>::value || is_arr<T>::value) return ix.at(d) < x.size() ? locate(x[ix.at(d)], c, k + 1, ix, d + 1) : nullptr;
    else if constexpr (is_opt<T>::value) return x ? locate(*x, c, k + 1, ix, d) : nullptr;
    else if constexpr (Agg<T>)
    {
        if constexpr (requires { x.alpha; }) if (c[k] == "alpha") return locate(x.alpha, c, k + 1, ix, d);
        if constexpr (requires { x.beta; }) if (c[k] == "beta") return locate(x.beta, c, k + 1, ix, d);
        if constexpr (requires { x.gamma; }) if (c[k] == "gamma") return locate(x.gamma, c, k + 1, ix, d);
        return nullptr;
    }
    else return nullptr;
}
// how many elements (over all indices up to the capacities) a path denotes
template <class T>
long count_at(const std::string& p)
{
    if (p.empty()) return 1;
    const auto dot = p.find('.');
    const std::string head = p.substr(0, dot), rest = dot == std::string::npos ? "" : p.substr(dot + 1);
    if constexpr (is_vec<T>::value) return (long)T::static_max_size() * count_at<typename T::value_type>(rest);
    else if constexpr (is_arr<T>::value) return (long)std::tuple_size_v<T> * count_at<typename T::value_type>(rest);
    else if constexpr (is_opt<T>::value) return count_at<typename T::value_type>(rest);
    else
    {
        if constexpr (requires(T t) { t.alpha; }) if (head == "alpha") return count_at<decltype(T::alpha)>(rest);
        if constexpr (requires(T t) { t.beta; }) if (head == "beta") return count_at<decltype(T::beta)>(rest);
        if constexpr (requires(T t) { t.gamma; }) if (head == "gamma") return count_at<decltype(T::gamma)>(rest);
        return 0;
    }
}

template <class T>
struct Obj  // the viewed object, in zeroed storage so that stray reads are reproducible
{
    alignas(64) unsigned char mem[sizeof(T) + 64];
    Obj() { std::memset(mem, 0, sizeof mem); ::new (mem) T(); }
    ~Obj() { get().~T(); }
    T& get() { return *std::launder(reinterpret_cast<T*>(mem)); }
};

template <class SUPER, class SUBS>
void bind_one(const char* how)
{
    using namespace fc;
    Chooser ch;
    static const sv::StructView sub_view{SUBS{}};
    static const sv::StructView full{SUPER{}};
    static const sv::StructView filtered{SUPER{}, SUBS{}};
    const auto bind = [&](SUPER& x, const sv::StructView<>& v, SUBS& s) { sv::sub_struct_view_of(x, v, out{s}, sub_view); };
    do
    {
        ++g_states;
        static Obj<SUPER> o;
        o.~Obj();
        ::new (&o) Obj<SUPER>();
        SUPER& x = o.get();
        g_leaf = 0;
        build(x, ch);
        const std::string before = dump(x);
        std::vector<unsigned char> bytes(o.mem, o.mem + sizeof o.mem);
        item(cat_str(how, " shape ", ch.str()), [&]
        {
            for (int v = 0; v < 2; ++v)
            {
                static Obj<SUBS> s;
                s.~Obj();
                ::new (&s) Obj<SUBS>();
                bind(x, v ? filtered : full, s.get());
                match(s.get(), x, v ? "filtered view: " : "full view: ");
                CK(std::memcmp(bytes.data(), o.mem, sizeof o.mem) == 0, "binding the view changed the viewed object");
                if constexpr (!has_optional<SUPER>())
                {
                    // rebinding the same view to the object after it changed shape, and back
                    static Obj<SUPER> o2;
                    o2.~Obj();
                    ::new (&o2) Obj<SUPER>();
                    for (int mode = 0; mode < 2; ++mode)
                    {
                        Chooser other;
                        other.maximal = mode == 1;
                        build(o2.get(), other);
                        bind(o2.get(), v ? filtered : full, s.get());
                        match(s.get(), o2.get(), "rebound view: ");
                    }
                    bind(x, v ? filtered : full, s.get());
                    match(s.get(), x, "view bound again: ");
                }
            }
            // a view made from an instance of this very shape
            SUPER copy = x;
            const sv::StructView v2{copy};
            CK(dump(copy) == before, "making a view changed the instance it is made from");
            static Obj<SUBS> s;
            s.~Obj();
            ::new (&s) Obj<SUBS>();
            bind(x, v2, s.get());
            match(s.get(), x, "view made from the bound shape: ");
        });
    } while (ch.next());
}
template <class S>
void structure(const char* how)
{
    using namespace fc;
    std::vector<std::string> all, props;
    paths<S>("", all, props);
    const sv::StructView view{S{}};
    item(cat_str(how, " paths"), [&]
    {
        S inst{};
        CK(sv::path_count_of(inst) == all.size(), "path_count_of is ", (long)sv::path_count_of(inst), " expected ", (long)all.size());
        const auto ps = sv::extract_paths_of(inst);
        CK(ps.size() == all.size(), "extract_paths_of: ", (long)ps.size());
        for (auto& p : all)
        {
            const auto chain = sv::path_from_string(p);
            CK(ps.contains(chain), "extract_paths_of lacks ", p);
            CK(p.empty() || sv::path_to_string<std::string>(chain) == p, "path_to_string(path_from_string(\"", p, "\"))");
            std::string kept = "left from before";
            const std::string back = sv::path_to_string(chain, fc::out{kept});
            CK(kept == back && (p.empty() || back == p), "path_to_string into a given string leaves \"", kept, "\" and returns \"", back, "\"");
            CK(sv::path_to_string<std::string>(sv::PathNameChain{}).empty(), "the empty path as a string");
            kept = "left from before";
            CK(sv::path_to_string(sv::PathNameChain{}, fc::out{kept}).empty() && kept.empty(), "the empty path written into a given string leaves \"", kept, "\"");
            CK((std::size_t)std::count(p.begin(), p.end(), '.') + (p.empty() ? 0 : 1) == chain.size(), "path_from_string(\"", p, "\") has ", (long)chain.size(), " parts");
        }
        const auto& m = view.get_path_map_ref();
        CK(m.size() == props.size(), "the view has ", (long)m.size(), " paths, expected ", (long)props.size());
        for (auto& p : props)
        {
            const auto chain = sv::path_from_string(p);
            CK(view.contains(chain), "the view lacks ", p);
            sv::StructView<> one;
            CK(one.template try_add_path<S>(chain), "try_add_path(\"", p, "\")");
            CK(one.contains(chain) && one.get_path_map_ref().size() == 1 && one.at(chain).offset == view.at(chain).offset, "try_add_path(\"", p, "\") adds something else");
            sv::PathNameChain bad = chain;
            bad.push_back("nope");
            CK(!one.template try_add_path<S>(bad) && !one.contains(bad) && one.get_path_map_ref().size() == 1, "a path that does not exist was added");
            sv::PathSet<> two{chain};
            sv::StructView<> many;
            CK(many.template try_add_paths<S>(two) && many.contains(chain) && many.get_path_map_ref().size() == 1, "try_add_paths(\"", p, "\")");
            two.insert(bad);
            CK(!many.template try_add_paths<S>(two) && many.get_path_map_ref().size() == 1, "try_add_paths with a path that does not exist");
        }
    });
    Chooser ch;
    do
    {
        ++g_states;
        static Obj<S> o;
        o.~Obj();
        ::new (&o) Obj<S>();
        S& x = o.get();
        g_leaf = 0;
        build(x, ch);
        const std::string before = dump(x);
        item(cat_str(how, " reflection of shape ", ch.str()), [&]
        {
            // recursive reflection: pre-order and post-order
            std::vector<std::pair<std::string, const void*>> want, got;
            visit(x, "", want, true);
            const auto path = [](const auto& chain) { return chain.empty() ? std::string() : rr::path_to_string<std::string>(chain); };
            rr::for_each_path_dfs(x, [&](const rr::PathNameChain& c, const auto& f) { got.emplace_back("+" + path(c), std::addressof(f)); }, [&](const rr::PathNameChain& c, const auto& f) { got.emplace_back("-" + path(c), std::addressof(f)); });
            CK(got.size() == want.size(), "recursive reflection made ", (long)got.size(), " calls, expected ", (long)want.size());
            for (std::size_t i = 0; i < std::min(got.size(), want.size()); ++i)
            {
                CK(got[i].first == want[i].first, "recursive reflection call ", (long)i, " is ", got[i].first, " expected ", want[i].first);
                CK(want[i].second == nullptr || got[i].second == want[i].second, "recursive reflection call ", (long)i, " at ", got[i].first, " passes another object");
            }
            CK(dump(x) == before, "recursive reflection changed the object");
            got.clear();
            rr::for_each_path_dfs(x, [&](const rr::PathNameChain& c, const auto& f) { got.emplace_back("+" + path(c), std::addressof(f)); });
            CK(got.size() * 2 == want.size(), "recursive reflection without post function");
            // all fields of the view: each index of each path once, at the right address
            std::map<std::string, long> calls;
            std::set<std::pair<std::string, std::vector<std::size_t>>> seen;
            sv::for_each_field(view, static_cast<void*>(std::addressof(x)), [&](const sv::PathNameChain& c, const sv::PathProperties& pp, const sv::Indices& ix, void* p)
            {
                const std::string ps = path(c);
                ++calls[ps];
                CK(seen.emplace(ps, std::vector<std::size_t>(ix.begin(), ix.end())).second, "for_each_field visits an element of ", ps, " twice");
                const void* w = locate(x, c, 0, ix, 0);
                CK(w == nullptr || w == p, "for_each_field: ", ps, " at another address");
                CK(view.get_field(std::addressof(x), c, ix) == p, "get_field(", ps, ")");
                CK(pp.offset.dim == ix.size(), "dimension of ", ps);
            });
            for (auto& p : props) CK(calls[p] == count_at<S>(p), "for_each_field visits ", p, " ", calls[p], " times, expected ", count_at<S>(p));
            CK(calls.size() == props.size(), "for_each_field visits ", (long)calls.size(), " paths");
            CK(dump(x) == before, "for_each_field changed the object");
        });
        // flat reflection of the top struct
        item(cat_str(how, " fields"), [&]
        {
            std::vector<std::pair<std::string, const void*>> got, want;
            if constexpr (requires { x.alpha; }) want.emplace_back("alpha", std::addressof(x.alpha));
            if constexpr (requires { x.beta; }) want.emplace_back("beta", std::addressof(x.beta));
            if constexpr (requires { x.gamma; }) want.emplace_back("gamma", std::addressof(x.gamma));
            fc::reflection::for_each_field(x, [&](const std::string_view& n, auto& f) { got.emplace_back(n, std::addressof(f)); });
            CK(got == want, "for_each_field");
            got.clear();
            fc::reflection::for_each_field(std::as_const(x), [&](const std::string_view& n, auto& f) { got.emplace_back(n, std::addressof(f)); });
            CK(got == want, "for_each_field of a const object");
            CK(fc::reflection::field_count_of<S>() == want.size() && fc::reflection::field_names_of<S>().size() == want.size(), "field_count_of");
            for (std::size_t i = 0; i < want.size(); ++i) CK(fc::reflection::field_names_of<S>()[i] == want[i].first, "field_names_of");
        });
    } while (ch.next());
}
template <class A, class B, class C, int V>
void selections(const char* nm)
{
    g_family = nm;
    using P = S3<A, B, C>;
    using a = Sub<A, V>;
    using b = Sub<B, V>;
    using c = Sub<C, V>;
    if constexpr (V == 0)
    {
        structure<P>("super");
        bind_one<P, U_a<a>>("{a}"); bind_one<P, U_b<b>>("{b}"); bind_one<P, U_c<c>>("{c}");
        bind_one<P, U_ab<a, b>>("{a,b}"); bind_one<P, U_cb<c, b>>("{c,b}"); bind_one<P, U_ca<c, a>>("{c,a}"); bind_one<P, U_abc<a, b, c>>("{a,b,c}"); bind_one<P, U_bca<b, c, a>>("{b,c,a}");
    }
    else
    {
        bind_one<P, U_ba<b, a>>("{b,a}*"); bind_one<P, U_ac<a, c>>("{a,c}*"); bind_one<P, U_bc<b, c>>("{b,c}*");
        bind_one<P, U_acb<a, c, b>>("{a,c,b}*"); bind_one<P, U_bac<b, a, c>>("{b,a,c}*"); bind_one<P, U_cab<c, a, b>>("{c,a,b}*"); bind_one<P, U_cba<c, b, a>>("{c,b,a}*");
    }
}
// a contiguous range of structs viewed entry by entry
template <class SUPER, class SUBS, class CONT>
void range_view(const char* how, CONT& cont)
{
    const sv::ContiguousRangeSubStructView<SUBS> v(cont);
    const long n = (long)cont.size();
    item(cat_str(how, " range of ", n), [&]
    {
        ++g_states;
        CK((long)v.size() == n, "size() is ", (long)v.size());
        for (long i = 0; i < n; ++i) match(v.at((std::size_t)i), cont.data()[i], cat_str("at(", i, ")"));
        long k = 0;
        for (auto&& s : v) { if (k < n) match(s, cont.data()[k], cat_str("iteration ", k)); ++k; }
        CK(k == n, "iteration yields ", k, " entries");
        for (long i = 0; i < n; ++i)
            for (long j = 0; j <= n; ++j)
            {
                auto a = v.begin() + i, b = v.begin() + j;
                CK(b - a == j - i && (a == b) == (i == j) && (a < b) == (i < j), "iterator arithmetic ", i, " ", j);
                a += j - i;
                CK(a == b, "+=");
                if (j < n) { match(*a, cont.data()[j], "after +="); match((v.cbegin() + i)[j - i], cont.data()[j], "[]"); }
            }
        auto e = v.end();
        for (long i = n; i > 0; --i) { --e; match(*e, cont.data()[i - 1], "backwards"); }
        CK(e == v.begin(), "backwards to begin");
        // the iterators of a view that can be changed, and iterators that refer to nothing yet
        sv::ContiguousRangeSubStructView<SUBS> w(cont);
        k = 0;
        for (auto it = w.begin(); it != w.end(); it++, ++k) if (k < n) match(*it, cont.data()[k], cat_str("iteration ", k, " over a view that is not const"));
        CK(k == n && w.end() - w.begin() == n && w.cend() - w.cbegin() == n, "iteration over a view that is not const yields ", k, " entries");
        decltype(w.begin()) blank, blank2;
        CK(blank == blank2 && blank - blank2 == 0, "iterators that refer to nothing are equal");
        blank = w.begin();
        CK(blank == w.begin() && blank + n == w.end(), "assignment to an iterator that refers to nothing");
        const auto cp = v;
        for (long i = 0; i < n; ++i) match(cp.at((std::size_t)i), cont.data()[i], cat_str("copy at(", i, ")"));
    });
    for (std::size_t bad : {(std::size_t)n, (std::size_t)n + 1, (std::size_t)-1}) item(cat_str(how, " range of ", n, " at(", (long)bad, ")"), [&] { (void)v.at(bad); }, EV_ABORT);
}
template <class SUPER, class SUBS>
void ranges_of(const char* how)
{
    static std::array<SUPER, 4> arr{};
    range_view<SUPER, SUBS>(how, arr);
    static std::array<SUPER, 1> one{};
    range_view<SUPER, SUBS>(how, one);
    for (std::size_t n = 0; n <= 3; ++n)
    {
        static fc::FixedVector<SUPER, 3> fv;
        fv.resize(n);
        range_view<SUPER, SUBS>(how, fv);
        if (n == 0) continue;
        std::vector<SUPER> dv(n);
        range_view<SUPER, SUBS>(how, dv);
    }
    item("default range view", [&] { const sv::ContiguousRangeSubStructView<SUBS> v; CK(v.size() == 0 && v.begin() == v.end(), "default view is not empty"); });
}

// ---------------------------------------------------------------- decomposition and reflection of wide structs
template <std::size_t N>
void decompose()
{
    static int t[N];
    item(cat_str("decomposition into ", (long)N), [&]
    {
        ++g_states;
        long calls = 0;
        fc::struct_decomposition::to_parameter_pack<N>(t, [&](auto&... m)
        {
            ++calls;
            CK(sizeof...(m) == N, "number of fields");
            const int* p[] = {std::addressof(m)...};
            for (std::size_t i = 0; i < N; ++i) CK(p[i] == t + i, "field ", (long)i, " is another field");
            return true;
        });
        CK(calls == 1, "called ", calls, " times");
    });
}
template <std::size_t FROM, std::size_t... I>
void decompose_all(std::index_sequence<I...>) { (decompose<FROM + I>(), ...); }

#if PART == 1
struct E0 {};
struct E1 { int only_one{}; };
struct Inner { int p{}; double q{}; };
struct Mixed { char c{}; Inner inner{}; int after_inner{}; Inner second{}; E0 nothing{}; bool last{}; };
struct Deep3 { int x{}; };
struct Deep2 { Deep3 d{}; int x{}; };
struct Deep1 { Deep2 d{}; int x{}; Deep3 e{}; };
struct Ptrs { int* p{}; const char* s{}; void* v{}; double d{}; };
struct Arr { int a[3]{}; std::array<int, 2> b{}; int c{}; Inner d[2]{}; };
struct Base { int base_field{}; Inner base_inner{}; };
struct Derived : Base { int own{}; };
struct OnlyBase : Base {};
struct Wide { int a_very_long_field_name_that_is_much_longer_than_usual_0123456789{}; int _{}; int a{}; int A{}; };
struct Opt { std::optional<int> o{}; std::optional<Inner> oi{}; fc::FixedVector<Inner, 2> v{}; Colour col{}; };
template <class T>
void names(const std::vector<std::string>& want, const char* nm)
{
    item(cat_str("field names of ", nm), [&]
    {
        ++g_states;
        CK(fc::reflection::field_count_of<T>() == want.size(), "count ", (long)fc::reflection::field_count_of<T>(), " expected ", (long)want.size());
        std::size_t i = 0;
        for (auto n : fc::reflection::field_names_of<T>()) { CK(i < want.size() && n == want[i], "name ", (long)i, " is ", n); ++i; }
    });
}
template <class T, class... M>
void fields(const std::vector<std::string>& want, const char* nm, M... m)
{
    names<T>(want, nm);
    item(cat_str("fields of ", nm), [&]
    {
        static T t{};
        const std::vector<const void*> at{std::addressof(t.*m)...};
        std::size_t i = 0;
        fc::reflection::for_each_field(t, [&](const std::string_view& n, auto& f)
        {
            CK(i < want.size() && n == want[i], "for_each_field name ", (long)i, " is ", n);
            CK(i < at.size() && (const void*)std::addressof(f) == at[i], "for_each_field passes another field for ", n);
            ++i;
        });
        CK(i == want.size(), "for_each_field visits ", (long)i, " fields");
    });
}
// F(n) fields of mixed sizes: the type of field i is a function of i
#define X10(M, p) M(p, 0) M(p, 1) M(p, 2) M(p, 3) M(p, 4) M(p, 5) M(p, 6) M(p, 7) M(p, 8) M(p, 9)
#define FA(p, d) int a##p##d{};
#define FB(p, d) std::int8_t b##p##d{};
#define FC(p, d) double c##p##d{};
#define NA(p, d) "a" #p #d,
#define NB(p, d) "b" #p #d,
#define NC(p, d) "c" #p #d,
#define MA(p, d) , &W::a##p##d
#define MB(p, d) , &W::b##p##d
#define MC_(p, d) , &W::c##p##d
static void wide_structs()
{
    { struct W { X10(FA, 0) X10(FB, 0) }; static std::vector<std::string> n{X10(NA, 0) X10(NB, 0)}; fields<W>(n, "20 fields" X10(MA, 0) X10(MB, 0)); }
    { struct W { X10(FB, 1) X10(FC, 1) X10(FA, 2) FB(9, 9) }; static std::vector<std::string> n{X10(NB, 1) X10(NC, 1) X10(NA, 2) NB(9, 9)}; fields<W>(n, "31 fields" X10(MB, 1) X10(MC_, 1) X10(MA, 2) MB(9, 9)); }
    { struct W { X10(FB, 1) X10(FC, 1) X10(FA, 2) FB(9, 9) FC(9, 9) FA(9, 9) }; static std::vector<std::string> n{X10(NB, 1) X10(NC, 1) X10(NA, 2) NB(9, 9) NC(9, 9) NA(9, 9)}; fields<W>(n, "33 fields" X10(MB, 1) X10(MC_, 1) X10(MA, 2) MB(9, 9) MC_(9, 9) MA(9, 9)); }
    { struct W { X10(FA, 1) X10(FB, 2) X10(FC, 3) X10(FA, 4) X10(FB, 5) X10(FC, 6) X10(FA, 7) FB(8, 8) };
      static std::vector<std::string> n{X10(NA, 1) X10(NB, 2) X10(NC, 3) X10(NA, 4) X10(NB, 5) X10(NC, 6) X10(NA, 7) NB(8, 8)};
      fields<W>(n, "71 fields" X10(MA, 1) X10(MB, 2) X10(MC_, 3) X10(MA, 4) X10(MB, 5) X10(MC_, 6) X10(MA, 7) MB(8, 8)); }
}
#endif
#ifndef PART
#define PART 0
#endif
using Nest = S2<std::int8_t, std::int64_t>;
using V2 = fc::FixedVector<std::int16_t, 2>;
using DNest = S2<V2, std::array<std::int32_t, 2>>;
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
#if PART == 0
    decompose_all<1>(std::make_index_sequence<128>{});
#elif PART == 1
    names<E0>({}, "an empty struct");
    fields<E1>({"only_one"}, "one field", &E1::only_one);
    fields<Inner>({"p", "q"}, "two fields", &Inner::p, &Inner::q);
    fields<Mixed>({"c", "inner", "after_inner", "second", "nothing", "last"}, "nested structs", &Mixed::c, &Mixed::inner, &Mixed::after_inner, &Mixed::second, &Mixed::nothing, &Mixed::last);
    fields<Deep1>({"d", "x", "e"}, "deeply nested structs", &Deep1::d, &Deep1::x, &Deep1::e);
    fields<Ptrs>({"p", "s", "v", "d"}, "pointers", &Ptrs::p, &Ptrs::s, &Ptrs::v, &Ptrs::d);
    fields<Arr>({"a", "b", "c", "d"}, "arrays", &Arr::a, &Arr::b, &Arr::c, &Arr::d);
    fields<Wide>({"a_very_long_field_name_that_is_much_longer_than_usual_0123456789", "_", "a", "A"}, "odd names", &Wide::a_very_long_field_name_that_is_much_longer_than_usual_0123456789, &Wide::_, &Wide::a, &Wide::A);
    fields<Opt>({"o", "oi", "v", "col"}, "optionals and containers", &Opt::o, &Opt::oi, &Opt::v, &Opt::col);
    names<Derived>({"base_field", "base_inner", "own"}, "a derived struct");
    fields<OnlyBase>({"base_field", "base_inner"}, "a struct with fields in its base only", &OnlyBase::base_field, &OnlyBase::base_inner);
    wide_structs();
    ranges_of<S3<std::int8_t, std::int64_t, std::int16_t>, U_cb<const std::int16_t*, const std::int64_t*>>("{c,b} of flat structs");
    ranges_of<S2<std::int8_t, double>, U_a<const std::int8_t*>>("{a} of flat structs");
    ranges_of<S3<std::int8_t, Nest, bool>, U_bc<Sub<Nest, 0>, const bool*>>("{b,c} of nested structs");
#else
#define T3(A, B, C) do { selections<A, B, C, 0>("S3<" #A ", " #B ", " #C ">"); selections<A, B, C, 1>("S3<" #A ", " #B ", " #C ">"); } while (0)
#define COMMA ,
    using A2 = std::array<std::int16_t, 3>;
    using M22 = std::array<std::array<std::int64_t, 2>, 2>;
    using VN = fc::FixedVector<Nest, 2>;
    using AN = std::array<Nest, 2>;
    using VV = fc::FixedVector<V2, 2>;
    using AV = std::array<V2, 2>;
    using VA = fc::FixedVector<A2, 2>;
    using OI = std::optional<int>;
    using OOI = std::optional<std::optional<std::int8_t>>;
    using ON = std::optional<Nest>;
    using OV = std::optional<V2>;
    using VO = fc::FixedVector<OI, 2>;
    using AO = std::array<OI, 2>;
    using OA = std::optional<A2>;
    using VDN = fc::FixedVector<DNest, 2>;
    using ADN = std::array<DNest, 2>;
    using Cube = std::array<std::array<std::array<std::int8_t, 2>, 2>, 2>;
    using NN = S2<Nest, S2<std::int16_t, S1<double>>>;
    using Bits = std::bitset<5>;
    using Ms = std::chrono::milliseconds;
    using AC = std::array<Colour, 2>;
    using VC = fc::FixedVector<Colour, 2>;
    (void)sizeof(NN);
#if PART == 2
    T3(std::int8_t, std::int64_t, std::int16_t);
    T3(Colour, bool, double);
    T3(bool, Bits, Ms);
    T3(char, Nest, std::uint32_t);
#elif PART == 3
    T3(std::int8_t, A2, V2);
    T3(V2, std::int8_t, A2);
    T3(A2, V2, std::int64_t);
    T3(M22, std::int8_t, V2);
#elif PART == 4
    T3(std::int8_t, VN, AN);
    T3(AN, Nest, VN);
    T3(VV, std::int8_t, AV);
    T3(VA, Colour, std::int64_t);
#elif PART == 5
    T3(std::int8_t, OI, OOI);
    T3(ON, std::int8_t, OV);
    T3(OI, VO, std::int8_t);
    T3(AO, bool, OA);
#elif PART == 6
    T3(std::int8_t, ADN, std::int16_t);
    T3(NN, std::int8_t, Cube);
    T3(AC, std::int8_t, VC);
    T3(VDN, Nest, std::int8_t);
#elif PART == 10
    using Huge = std::bitset<600000>;              // fields behind offsets beyond 64 KiB
    using FarArr = std::array<Huge, 2>;            // strides beyond 64 KiB
    using LongArr = std::array<std::int16_t, 300>; // more than 256 entries
    using LongVec = fc::FixedVector<std::int8_t, 260>;
    using VLong = fc::FixedVector<LongArr, 2>;
    using AVL = std::array<fc::FixedVector<S2<std::int8_t, LongArr>, 1>, 2>;
    T3(Huge, std::int8_t, A2);
    T3(std::int8_t, FarArr, Nest);
    T3(LongArr, V2, std::int8_t);
    T3(VLong, std::int8_t, AVL);
    g_family = "S3<std::int8_t, FixedVector<std::int8_t, 260>, std::int16_t>";
    bind_one<S3<std::int8_t, LongVec, std::int16_t>, U_bc<Sub<LongVec, 0>, const std::int16_t*>>("{b,c}");
    g_family = "S3<Huge, FixedVector<std::int8_t, 260>, Nest>";
    bind_one<S3<Huge, LongVec, Nest>, U_cb<Sub<Nest, 0>, Sub<LongVec, 0>>>("{c,b}");
    ranges_of<S3<Huge, std::int64_t, std::int16_t>, U_cb<const std::int16_t*, const std::int64_t*>>("{c,b} of huge structs");
    ranges_of<S2<LongArr, double>, U_b<const double*>>("{b} of wide structs");
#elif PART == 7
    decompose_all<129>(std::make_index_sequence<384>{});
#elif PART == 8
    decompose_all<513>(std::make_index_sequence<256>{});
#elif PART == 9
    decompose_all<769>(std::make_index_sequence<256>{});
#endif
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
