// Containers retain the type properties of their elements: every combination of special members
// {trivial, user-provided, deleted} of the element type x every container. Instances as template arguments.
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <atomic>
#include <bitset>
#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
using namespace mc;
namespace fc = fixed_containers;
using En = en::Old;

template <int CC, int CA, int MC, int MA, int D>
struct El
{
    int v = 0;
    El() = default;
    constexpr El(int x) : v(x) {}
    El(const El&) requires (CC == 0) = default;
    constexpr El(const El& o) requires (CC == 1) : v(o.v) {}
    El(const El&) requires (CC == 2) = delete;
    El(El&&) requires (MC == 0) = default;
    constexpr El(El&& o) noexcept requires (MC == 1) : v(o.v) {}
    El(El&&) requires (MC == 2) = delete;
    El& operator=(const El&) requires (CA == 0) = default;
    constexpr El& operator=(const El& o) requires (CA == 1) { v = o.v; return *this; }
    El& operator=(const El&) requires (CA == 2) = delete;
    El& operator=(El&&) requires (MA == 0) = default;
    constexpr El& operator=(El&& o) noexcept requires (MA == 1) { v = o.v; return *this; }
    El& operator=(El&&) requires (MA == 2) = delete;
    ~El() requires (D == 0) = default;
    constexpr ~El() requires (D == 1) {}
    friend constexpr auto operator<=>(const El& a, const El& b) { return a.v <=> b.v; }
    friend constexpr bool operator==(const El& a, const El& b) { return a.v == b.v; }
};
struct H { template <class T> constexpr std::uint64_t operator()(const T&) const { return 1; } };

struct Traits { bool cc, tcc, mc, tmc, ca, tca, ma, tma, d, td, tc; };
template <class T>
static Traits traits()
{
    return {std::is_copy_constructible_v<T>, std::is_trivially_copy_constructible_v<T>, std::is_move_constructible_v<T>, std::is_trivially_move_constructible_v<T>,
            std::is_copy_assignable_v<T>, std::is_trivially_copy_assignable_v<T>, std::is_move_assignable_v<T>, std::is_trivially_move_assignable_v<T>,
            std::is_destructible_v<T>, std::is_trivially_destructible_v<T>, std::is_trivially_copyable_v<T>};
}
static void compare(const char* what, const std::string& el, const Traits& e, const Traits& c, bool full)
{
    g_current_op = cat_str(what, " of ", el);
    ++g_transitions;
#define KEEPS(x) MC_CHECK(!e.x || c.x, MISC, "the element type is ", #x, " but the container is not")
#define LACKS(x) MC_CHECK(e.x || !c.x, MISC, "the element type is not ", #x, " but the container claims to be")
    KEEPS(cc); KEEPS(mc); KEEPS(ca); KEEPS(ma); KEEPS(d);
    if (full) { KEEPS(tc); if (e.tc) { KEEPS(tcc); KEEPS(tmc); KEEPS(tca); KEEPS(tma); KEEPS(td); } }
    LACKS(tcc); LACKS(tmc); LACKS(td); LACKS(tc); LACKS(d);
}
template <class E, std::size_t N = 3>
static void go(const std::string& el, bool sane)
{
    const Traits e = traits<E>();
    ++g_states;
    compare("FixedVector", el, e, traits<fc::FixedVector<E, N>>(), true);
    compare("FixedDeque", el, e, traits<fc::FixedDeque<E, N>>(), true);
    compare("FixedCircularDeque", el, e, traits<fc::FixedCircularDeque<E, N>>(), true);
    compare("FixedStack", el, e, traits<fc::FixedStack<E, N>>(), true);
    compare("FixedQueue", el, e, traits<fc::FixedQueue<E, N>>(), true);
    compare("FixedCircularQueue", el, e, traits<fc::FixedCircularQueue<E, N>>(), true);
    compare("FixedList", el, e, traits<fc::FixedList<E, N>>(), true);
    compare("FixedMap (values)", el, e, traits<fc::FixedMap<int, E, N>>(), sane);
    compare("FixedMap (keys)", el, e, traits<fc::FixedMap<E, int, N>>(), sane);
    compare("FixedSet", el, e, traits<fc::FixedSet<E, N>>(), sane);
    using RB = fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
    compare("FixedMap (values), dedicated colour", el, e, traits<fc::FixedMap<int, E, N, std::less<int>, RB::DEDICATED_COLOR>>(), sane);
    compare("FixedMap (values), contiguous", el, e, traits<fc::FixedMap<int, E, N, std::less<int>, RB::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>>(), sane);
    compare("FixedSet, dedicated colour", el, e, traits<fc::FixedSet<E, N, std::less<E>, RB::DEDICATED_COLOR>>(), sane);
    compare("FixedSet, contiguous", el, e, traits<fc::FixedSet<E, N, std::less<E>, RB::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>>(), sane);
    compare("FixedUnorderedMap (values)", el, e, traits<fc::FixedUnorderedMap<int, E, N, H>>(), sane);
    compare("FixedUnorderedMap (keys)", el, e, traits<fc::FixedUnorderedMap<E, int, N, H>>(), sane);
    compare("FixedUnorderedSet", el, e, traits<fc::FixedUnorderedSet<E, N, H>>(), sane);
    compare("EnumMap", el, e, traits<fc::EnumMap<En, E>>(), true);
    compare("EnumArray", el, e, traits<fc::EnumArray<En, E>>(), true);
}
template <int I>
static void one()
{
    constexpr int CC = I % 3, CA = I / 3 % 3, MC = I / 9 % 3, MA = I / 27 % 3, D = I / 81;
    if constexpr (!(MC == 2 && CC != 2) && !(MA == 2 && CA != 2))
    {
        static const char* n[] = {"trivial", "user-provided", "deleted"};
        go<El<CC, CA, MC, MA, D>>(cat_str("copy construction ", n[CC], ", copy assignment ", n[CA], ", move construction ", n[MC], ", move assignment ", n[MA], ", destruction ", n[D]), MC != 2);
    }
}
template <int... I>
static void all(std::integer_sequence<int, I...>) { (one<I>(), ...); }

// ---------------------------------------------------------------- sizes, alignments, capacities and everyday element types
template <std::size_t SIZE, std::size_t ALIGN>
struct alignas(ALIGN) Blob { unsigned char b[SIZE]; };
template <std::size_t SIZE, std::size_t ALIGN>
struct alignas(ALIGN) NoDefault { unsigned char b[SIZE]; explicit NoDefault(int) {} };
template <std::size_t SIZE, std::size_t ALIGN>
struct alignas(ALIGN) Owning { unsigned char b[SIZE]; Owning() {} Owning(const Owning&) {} Owning& operator=(const Owning&) { return *this; } ~Owning() {} };
template <std::size_t SIZE, std::size_t ALIGN>
static void size()
{
    go<Blob<SIZE, ALIGN>>(cat_str("plain bytes, size ", (long)SIZE, ", alignment ", (long)ALIGN), true);
    go<NoDefault<SIZE, ALIGN>>(cat_str("bytes without default construction, size ", (long)SIZE, ", alignment ", (long)ALIGN), true);
    if constexpr (SIZE % 3 == 0) go<Owning<SIZE, ALIGN>>(cat_str("non-trivial bytes, size ", (long)SIZE, ", alignment ", (long)ALIGN), true);
}
template <std::size_t... S> static void sizes(std::index_sequence<S...>) { (size<S + 1, 1>(), ...); }
template <class E> static void kind(const char* n) { go<E>(n, true); }
template <std::size_t N> static void capacity()
{
    go<int, N>(cat_str("int, capacity ", (long)N), true);
    go<Blob<5, 1>, N>(cat_str("5 bytes, capacity ", (long)N), true);
    go<Owning<4, 4>, N>(cat_str("non-trivial, capacity ", (long)N), true);
}
struct WithConst { const int x; int y; };
struct WithRef { int& r; };
struct Base1 { int a; };
struct Derived : Base1 { char c; };
struct Bits { unsigned a : 3, b : 7; };
union Either { int i; double d; };
struct Volat { volatile int v; };
struct Virt { virtual int f() { return 1; } };
struct Fam { int x[3][2]; };
static void kinds()
{
    kind<bool>("bool"); kind<char>("char"); kind<unsigned char>("unsigned char"); kind<wchar_t>("wchar_t"); kind<char8_t>("char8_t"); kind<char32_t>("char32_t"); kind<short>("short");
    kind<unsigned>("unsigned"); kind<long>("long"); kind<long long>("long long"); kind<__int128>("__int128"); kind<float>("float"); kind<double>("double"); kind<long double>("long double");
    kind<std::byte>("std::byte"); kind<En>("enum"); kind<void*>("void*"); kind<const int*>("const int*"); kind<int (*)(int)>("function pointer"); kind<int Base1::*>("pointer to member");
    kind<int (Virt::*)()>("pointer to member function"); kind<std::nullptr_t>("nullptr_t");
    kind<WithConst>("struct with a const member"); kind<WithRef>("struct with a reference member"); kind<Derived>("derived struct"); kind<Bits>("bit-fields"); kind<Either>("union");
    kind<Volat>("volatile member"); kind<Virt>("polymorphic"); kind<Fam>("nested arrays"); kind<std::array<int, 3>>("std::array"); kind<std::array<std::string, 2>>("std::array of std::string");
    kind<std::optional<int>>("std::optional<int>"); kind<std::optional<std::string>>("std::optional<std::string>"); kind<std::string>("std::string"); kind<std::string_view>("std::string_view");
    kind<std::pair<int, char>>("std::pair"); kind<std::tuple<int, char>>("std::tuple"); kind<std::unique_ptr<int>>("std::unique_ptr"); kind<std::shared_ptr<int>>("std::shared_ptr");
    kind<std::vector<int>>("std::vector"); kind<std::variant<int, double>>("std::variant"); kind<std::variant<int, std::string>>("std::variant with std::string"); kind<std::reference_wrapper<int>>("std::reference_wrapper");
    kind<std::function<int()>>("std::function"); go<std::atomic<int>>("std::atomic", false); kind<std::chrono::seconds>("std::chrono::seconds"); kind<std::bitset<70>>("std::bitset");
    kind<fc::FixedVector<int, 2>>("FixedVector of int"); kind<fc::FixedVector<std::string, 2>>("FixedVector of std::string"); kind<fc::FixedMap<int, int, 2>>("FixedMap"); kind<fc::FixedList<std::string, 2>>("FixedList of std::string");
    kind<fc::FixedString<5>>("FixedString"); kind<fc::FixedUnorderedSet<int, 2>>("FixedUnorderedSet"); kind<fc::EnumSet<En>>("EnumSet"); kind<fc::EnumMap<En, std::string>>("EnumMap of std::string"); kind<fc::FixedDeque<Derived, 3>>("FixedDeque");
}

// ---------------------------------------------------------------- instances as template arguments
// X is a container built in constant evaluation and passed as a template argument: inside, it must show the same content.
template <auto X>
struct Arg
{
    static constexpr auto& get() { return X; }
    static inline int id = 0;
};
struct Pod { int a; signed char b; friend constexpr auto operator<=>(const Pod&, const Pod&) = default; };
template <class T> constexpr T mk(int i) { if constexpr (std::is_same_v<T, Pod>) return Pod{i, (signed char)-i}; else if constexpr (std::is_enum_v<T>) return i % 3 == 0 ? en::OLD_A : i % 3 == 1 ? en::OLD_B : en::OLD_C; else return (T)i; }
template <class C, int OPS>
constexpr C built()
{
    C c{};
    int n = 0;
    for (int o = OPS, i = 0; i < 4; ++i, o /= 3)
    {
        const int w = o % 3;
        if constexpr (requires { c.push_front(mk<typename C::value_type>(1)); })
        {
            if (w == 1) c.push_back(mk<typename C::value_type>(++n));
            else if (w == 2) { if (c.empty()) c.push_front(mk<typename C::value_type>(++n)); else c.pop_front(); }
        }
        else if constexpr (requires { c.push_back(mk<typename C::value_type>(1)); })
        {
            if (w == 1) c.push_back(mk<typename C::value_type>(++n));
            else if (w == 2 && !c.empty()) c.pop_back();
        }
        else if constexpr (requires { typename C::mapped_type; c.clear(); })
        {
            if (w == 1) c.try_emplace(mk<typename C::key_type>((++n * 5) % 7), mk<typename C::mapped_type>(n));
            else if (w == 2 && !c.empty()) c.erase(c.begin());
        }
        else if constexpr (requires { typename C::key_type; c.clear(); })
        {
            if (w == 1) c.insert(mk<typename C::key_type>((++n * 5) % 7));
            else if (w == 2 && !c.empty()) c.erase(c.begin());
        }
        else
        {
            if (w == 1) c.push(mk<typename C::value_type>(++n));
            else if (w == 2 && !c.empty()) c.pop();
        }
    }
    return c;
}
template <class C>
static std::string image(const C& c)
{
    std::string s = cat_str((long)c.size(), ":");
    auto put = [&](const auto& x) { if constexpr (requires { x.a; }) s += cat_str(" ", x.a, "/", (int)x.b); else s += cat_str(" ", (long)x); };
    if constexpr (requires { c.begin(); })
        for (auto&& e : c)
            if constexpr (requires { e.first; }) { put(e.first); put(e.second); } else put(e);
    else if constexpr (requires { c.top(); }) { C d = c; while (!d.empty()) { put(d.top()); d.pop(); } }
    else { C d = c; while (!d.empty()) { put(d.front()); d.pop(); } }
    return s;
}
template <class C, int OPS>
static void arg(const char* nm)
{
    g_current_op = cat_str(nm, " as a template argument, history ", OPS);
    static constexpr C X = built<C, OPS>();
    using A = Arg<X>;
    using B = Arg<built<C, OPS>()>;
    MC_CHECK((std::is_same_v<A, B>), MISC, "two equal instances are different template arguments");
    MC_CHECK(image(A::get()) == image(built<C, OPS>()), MISC, "a template argument shows other content: ", image(A::get()));
    MC_CHECK(A::get() == X, MISC, "a template argument does not equal its source");
    ++g_transitions;
}
template <class C, int... OPS>
static void args(const char* nm, std::integer_sequence<int, OPS...>) { (arg<C, OPS>(nm), ...); ++g_states; }
template <class C>
static void nttp(const char* nm) { args<C>(nm, std::make_integer_sequence<int, 81>{}); }

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if PART == 0
    all(std::make_integer_sequence<int, 162>{});
#elif PART == 3
    sizes(std::make_index_sequence<33>{});
    size<40, 8>(); size<48, 16>(); size<63, 1>(); size<64, 64>(); size<65, 1>(); size<100, 4>(); size<127, 1>(); size<128, 32>(); size<129, 1>(); size<1000, 2>(); size<4096, 8>(); size<6, 2>(); size<12, 4>(); size<24, 8>(); size<32, 32>();
#elif PART == 4
    kinds();
    capacity<0>(); capacity<1>(); capacity<2>(); capacity<4>(); capacity<5>(); capacity<8>(); capacity<16>(); capacity<17>(); capacity<127>(); capacity<255>(); capacity<256>(); capacity<257>(); capacity<1000>(); capacity<65536>(); capacity<70000>();
#else
#if PART == 1
    nttp<fc::FixedVector<int, 4>>("FixedVector");
    nttp<fc::FixedVector<Pod, 4>>("FixedVector of structs");
    nttp<fc::FixedDeque<int, 4>>("FixedDeque");
    nttp<fc::FixedCircularDeque<int, 2>>("FixedCircularDeque");
    nttp<fc::FixedStack<int, 4>>("FixedStack");
    nttp<fc::FixedQueue<Pod, 4>>("FixedQueue");
    nttp<fc::FixedCircularQueue<int, 2>>("FixedCircularQueue");
    nttp<fc::FixedString<4>>("FixedString");
#else
    nttp<fc::FixedList<int, 4>>("FixedList");
    nttp<fc::FixedList<Pod, 4>>("FixedList of structs");
    nttp<fc::FixedMap<int, int, 4>>("FixedMap");
    nttp<fc::FixedMap<int, Pod, 4>>("FixedMap of structs");
    nttp<fc::FixedSet<int, 4>>("FixedSet");
    nttp<fc::EnumMap<En, int>>("EnumMap");
    nttp<fc::EnumSet<En>>("EnumSet");
    nttp<fc::FixedUnorderedMap<int, Pod, 4, H>>("FixedUnorderedMap");
    nttp<fc::FixedUnorderedSet<int, 4, H>>("FixedUnorderedSet");
#endif
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
