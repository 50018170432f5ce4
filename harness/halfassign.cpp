// Elements whose assignment is trivial although their construction and destruction are not (e.g. instance counters):
// container assignment for every pair of sizes. Each finding is reported under an id of its own; run_check.py
// compares the ids with KNOWN_FINDINGS.
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace mc;
namespace fc = fixed_containers;
static long g_alive = 0;
struct Counted
{
    int v;
    Counted(int x) : v(x) { ++g_alive; }
    Counted(const Counted& o) : v(o.v) { ++g_alive; }
    Counted(Counted&& o) noexcept : v(o.v) { ++g_alive; }
    Counted& operator=(const Counted&) = default;
    Counted& operator=(Counted&&) noexcept = default;
    ~Counted() { --g_alive; }
    friend bool operator==(const Counted& a, const Counted& b) { return a.v == b.v; }
    friend auto operator<=>(const Counted& a, const Counted& b) { return a.v <=> b.v; }
};
static_assert(std::is_trivially_copy_assignable_v<Counted> && !std::is_trivially_copy_constructible_v<Counted>);
struct H { std::uint64_t operator()(const Counted& c) const { return (std::uint64_t)c.v; } std::uint64_t operator()(int c) const { return (std::uint64_t)c; } };
using E = en::Old;
static E ekey(int i) { static const E a[] = {en::OLD_A, en::OLD_B, en::OLD_C}; return a[i]; }

template <class C>
static void add(C& c, int i)
{
    if constexpr (requires { typename C::mapped_type; })
    {
        if constexpr (std::is_same_v<typename C::key_type, E>) c.try_emplace(ekey(i), i);
        else c.try_emplace(i, i);
    }
    else if constexpr (requires { typename C::key_type; }) c.emplace(i);
    else if constexpr (requires { c.emplace_back(i); }) c.emplace_back(i);
    else c.emplace(i);
}
template <class C>
static void check(const char* nm)
{
    for (int kind = 0; kind < 2; ++kind)
    {
        bool bytewise = false;
        for (int n = 0; n <= 3; ++n)
            for (int m = 0; m <= 3; ++m)
            {
                g_current_op = cat_str(nm, kind ? ": move" : ": copy", " assignment of a container of ", n, " to one of ", m);
                ++g_states;
                ++g_transitions;
                const auto san0 = g_san_reports;
                const Event ev = guarded([&]
                {
                    g_alive = 0;
                    C* a = new C();
                    C* b = new C();
                    for (int i = 0; i < n; ++i) add(*a, i);
                    for (int i = 0; i < m; ++i) add(*b, i);
                    MC_CHECK(g_alive == n + m, LIFE, "insertion: ", g_alive, " elements are alive");
                    if (kind) *b = std::move(*a); else *b = *a;
                    const long after = g_alive;
                    const long na = (long)a->size(), nb = (long)b->size();
                    MC_CHECK(nb == n, LIFE | COPY, "size after assignment");
                    const bool right = after == na + nb;
                    // the known finding: no constructor and no destructor runs at all
                    const bool known = after == n + m;
                    MC_CHECK(right || known, LIFE, "assignment: ", after, " elements are alive, expected ", na + nb);
                    if (!right) bytewise = true;
                    delete a;
                    delete b;
                    if (right) MC_CHECK(g_alive == 0, LIFE, "after destruction ", g_alive, " elements are alive");
                });
                if (ev.kind != EV_NONE) fail(LIFE | CRASH, cat_str("ended with ", ev_name(ev.kind)));
                MC_CHECK(g_san_reports == san0, LIFE | CRASH, "memory error / undefined behaviour");
            }
        if (bytewise) std::printf("RESULT {\"kind\":\"finding\",\"id\":\"bytewise-assignment:%s:%s\",\"msg\":\"%s\"}\n", nm, kind ? "move" : "copy",
            "container assignment of elements with trivial assignment but non-trivial construction/destruction runs neither constructors nor destructors");
    }
}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
    check<fc::FixedVector<Counted, 3>>("FixedVector");
    check<fc::FixedDeque<Counted, 3>>("FixedDeque");
    check<fc::FixedCircularDeque<Counted, 3>>("FixedCircularDeque");
    check<fc::FixedStack<Counted, 3>>("FixedStack");
    check<fc::FixedQueue<Counted, 3>>("FixedQueue");
    check<fc::FixedList<Counted, 3>>("FixedList");
    check<fc::FixedMap<int, Counted, 3>>("FixedMap");
    check<fc::FixedSet<Counted, 3>>("FixedSet");
    check<fc::FixedUnorderedMap<int, Counted, 3, H>>("FixedUnorderedMap");
    check<fc::FixedUnorderedSet<Counted, 3, H>>("FixedUnorderedSet");
    check<fc::EnumMap<E, Counted>>("EnumMap");
    g_notes["enumerated"] = 1;
    finish(0);
}
