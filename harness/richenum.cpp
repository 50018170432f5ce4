// Enum reflection: every enumerator, every representable backing value (8/16-bit) or a full window
// of them, and every name, prefix, suffix, case variant and one-character edit of every name.
#include "mc.hpp"
#include "fixed_containers/enum_utils.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "enums.hpp"
using namespace mc;
namespace fc = fixed_containers;
namespace re = fc::rich_enums;
namespace en
{
// more shapes of rich enums
#define RICH(NAME, BASE, UNDER, ...)                                                \
    enum class NAME##B : UNDER { __VA_ARGS__ };                                     \
    class NAME : public re::BASE<NAME, NAME##B>                                     \
    {                                                                               \
        friend re::SkeletalRichEnum<NAME, NAME##B>::ValuesFriend;                   \
        using re::BASE<NAME, NAME##B>::BASE;                                        \
                                                                                    \
    public:                                                                         \
        static constexpr NAME make(NAME##B b) { return NAME::value_of(b).value(); } \
    }
RICH(Zero, SkeletalRichEnum, int, A, AB, ABC, B);                            // zero-based contiguous
RICH(Shift, SkeletalRichEnum, int, ONE = 1, TWO = 2, THREE = 3, FOUR = 4);   // contiguous, not zero-based
RICH(Perm, SkeletalRichEnum, std::int16_t, X = 2, Y = 0, Z = 3, W = 1);      // declared out of order
RICH(Neg, SkeletalRichEnum, std::int8_t, LO = -128, M = -1, Z = 0, P = 1, HI = 126);
RICH(Byte, SkeletalRichEnum, std::uint8_t, LO = 0, MID = 100, HI = 127);
RICH(Single, NonDefaultConstructibleSkeletalRichEnum, unsigned, ONLY = 3);
RICH(U64, NonDefaultConstructibleSkeletalRichEnum, std::uint64_t, A = 5, C = 7, B = 120);
// rich enums that list their own values: any order, any width, extra data
template <class BE> struct Desc;
template <class BE> struct Listed;
template <class BE>
class Lite : public re::SkeletalRichEnumLite<Lite<BE>, BE>
{
    using Base = re::SkeletalRichEnumLite<Lite<BE>, BE>;
    friend Listed<BE>;
    constexpr Lite(BE b, int extra) : Base{b}, extra_{extra} {}

public:
    int extra_ = -1;
    constexpr Lite() = default;
    static constexpr std::size_t count() { return Desc<BE>::ORDER.size(); }
    static constexpr const std::array<Lite, Desc<BE>::ORDER.size()>& values() { return Listed<BE>::V; }
    constexpr std::size_t ordinal() const
    {
        for (std::size_t i = 0; i < count(); ++i) if (values()[i].backing_enum() == this->backing_enum()) return i;
        std::abort();
    }
    constexpr std::string_view to_string() const { return this->has_value() ? std::string_view(Desc<BE>::NAMES[ordinal()]) : std::string_view("none"); }
    static constexpr Lite make(BE b) { return Lite::value_of(b).value(); }
};
template <class BE>
struct Listed
{
    template <std::size_t... I>
    static constexpr auto all(std::index_sequence<I...>) { return std::array<Lite<BE>, sizeof...(I)>{Lite<BE>{Desc<BE>::ORDER[I], 100 + (int)I}...}; }
    static constexpr auto V = all(std::make_index_sequence<Desc<BE>::ORDER.size()>{});
};
#define LITE(NAME, UNDER, N, ORD, NMS, ...)                                \
    enum class NAME##B : UNDER { __VA_ARGS__ };                            \
    template <> struct Desc<NAME##B>                                       \
    {                                                                      \
        using E = NAME##B;                                                 \
        static constexpr std::array<NAME##B, N> ORDER{ORD};                \
        static constexpr const char* NAMES[] = {NMS};                      \
    };                                                                     \
    using NAME = Lite<NAME##B>
#define L(...) __VA_ARGS__
LITE(Rot, int, 4, L(E::C, E::A, E::D, E::B), L("C", "A", "D", "B"), A = 0, B = 1, C = 2, D = 3);
LITE(Far, std::int64_t, 4, L(E::HUGE_, E::ONE, E::LOW, E::WRAP), L("HUGE_", "ONE", "LOW", "WRAP"), HUGE_ = 5000000000, ONE = 1, LOW = -5000000000, WRAP = 4294967296 + 3);
LITE(Top, std::uint8_t, 3, L(E::HI, E::LO, E::MID), L("HI", "LO", "MID"), HI = 254, LO = 0, MID = 128);
}  // namespace en

template <class T>
struct Expected { T v; long long n; const char* name; };

template <class BE>
static long long num(BE b) { return (long long)static_cast<std::underlying_type_t<BE>>(b); }

static std::vector<std::string> near_names(const std::vector<std::string>& names)
{
    std::set<std::string> s{"", " ", "INVALID", "0", "1", std::string(1, '\0')};
    for (auto& n : names)
    {
        s.insert(n);
        for (std::size_t i = 0; i <= n.size(); ++i)
        {
            s.insert(n.substr(0, i));
            s.insert(n.substr(i));
            for (char ch : {'A', 'a', '_', ' ', '\0', 'Z'})
            {
                s.insert(n.substr(0, i) + ch + n.substr(i));
                if (i < n.size()) s.insert(n.substr(0, i) + ch + n.substr(i + 1));
            }
            if (i < n.size()) s.insert(n.substr(0, i) + n.substr(i + 1));
        }
        std::string l = n;
        for (char& ch : l) ch = (char)std::tolower(ch);
        s.insert(l);
        for (auto& m : names) s.insert(n + m);
    }
    return {s.begin(), s.end()};
}
static void enter(const std::string& what) { g_current_op = what; ++g_transitions; ++g_states; }

template <class T>
void adapter(const std::vector<Expected<T>>& want, const char* nm)
{
    using A = re::EnumAdapter<T>;
    enter(cat_str("EnumAdapter<", nm, ">"));
    MC_CHECK(A::count() == want.size() && A::values().size() == want.size(), MISC, "count");
    std::set<std::string> names;
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        ++g_transitions;
        MC_CHECK(A::values()[i] == want[i].v, MISC, "values()[", (long)i, "]");
        MC_CHECK(A::ordinal(want[i].v) == i, MISC, "ordinal of #", (long)i);
        MC_CHECK(A::to_string(want[i].v) == want[i].name, MISC, "to_string of #", (long)i);
        for (std::size_t j = 0; j < want.size(); ++j) MC_CHECK((want[i].v == want[j].v) == (i == j), MISC, "equality of enumerators ", (long)i, " ", (long)j);
    }
    static_assert(re::has_enum_adapter<T>);
}
template <class T>
void rich(const std::vector<Expected<T>>& want, const char* nm)
{
    using BE = typename T::BackingEnum;
    using U = std::underlying_type_t<BE>;
    adapter<T>(want, nm);
    static_assert(re::is_rich_enum<T>);
    enter(cat_str("rich enum ", nm));
    MC_CHECK(T::count() == want.size() && T::values().size() == want.size(), MISC, "count");
    std::vector<std::string> names;
    for (auto& w : want) names.push_back(w.name);
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        const T& t = want[i].v;
        MC_CHECK(T::values()[i] == t, MISC, "values()[", (long)i, "]");
        MC_CHECK(t.ordinal() == i && t.to_string() == want[i].name && t.has_value(), MISC, "ordinal/to_string/has_value of #", (long)i);
        MC_CHECK(num(t.backing_enum()) == want[i].n && static_cast<BE>(t) == t.backing_enum(), MISC, "backing_enum of #", (long)i);
        T cp = t;
        T mv = std::move(cp);
        MC_CHECK(mv == t && mv.ordinal() == i, MISC, "copy of #", (long)i);
        for (std::size_t j = 0; j < want.size(); ++j)
        {
            MC_CHECK((t == want[j].v) == (i == j) && (t != want[j].v) == (i != j), MISC, "equality ", (long)i, " ", (long)j);
            if (i == j) MC_CHECK(std::hash<T>{}(t) == std::hash<T>{}(want[j].v), MISC, "hash");
            T as = t;
            as = want[j].v;
            MC_CHECK(as == want[j].v && as.ordinal() == j, MISC, "assignment");
        }
    }
    for (auto& n : near_names(names))
    {
        ++g_transitions;
        auto r = T::value_of(std::string_view(n));
        long at = -1;
        for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == n) at = (long)i;
        MC_CHECK(r.has_value() == (at >= 0), MISC, "value_of(\"", n, "\") ", r.has_value() ? "found" : "missed");
        if (r && at >= 0) MC_CHECK(*r == want[(std::size_t)at].v && r->to_string() == n, MISC, "value_of(\"", n, "\")");
    }
    long long lo = -70000, hi = 70000;
    if (sizeof(U) <= 2 || std::is_unsigned_v<U>) { lo = std::max<long long>(lo, (long long)std::numeric_limits<U>::min()); }
    if (sizeof(U) <= 2) hi = std::min<long long>(hi, (long long)std::numeric_limits<U>::max());
    std::vector<U> probe;
    for (long long x = lo; x <= hi; ++x) probe.push_back((U)x);
    if constexpr (sizeof(U) > 2)
        for (U x : {std::numeric_limits<U>::min(), std::numeric_limits<U>::max()})
            for (int d = 0; d < 4; ++d) probe.push_back(x == 0 || x < 0 ? (U)(x + (U)d) : (U)(x - (U)d));
    if constexpr (sizeof(U) == 8)
        for (auto& w : want) { probe.push_back((U)w.n + ((U)1 << 32)); probe.push_back((U)w.n | ((U)1 << 63)); }
    for (U x : probe)
    {
        ++g_transitions;
        long at = -1;
        for (std::size_t i = 0; i < want.size(); ++i) if ((U)want[i].n == x) at = (long)i;
        auto r1 = T::value_of(static_cast<BE>(x));
        auto r2 = T::value_of(x);
        MC_CHECK(r1.has_value() == (at >= 0) && r2.has_value() == (at >= 0), MISC, "value_of(", (long)x, ")");
        if (at >= 0 && r1 && r2) MC_CHECK(*r1 == want[(std::size_t)at].v && *r2 == want[(std::size_t)at].v, MISC, "value_of(", (long)x, ") other enumerator");
    }
    if constexpr (std::is_default_constructible_v<T>)
    {
        enter(cat_str("default-constructed ", nm));
        T d{};
        T d2;
        MC_CHECK(!d.has_value() && !d2.has_value() && d == d2 && !(d != d2), MISC, "default-constructed");
        for (auto& w : want) MC_CHECK(!(d == w.v) && !(w.v == d) && d != w.v, MISC, "default equals an enumerator");
        for (auto& n : names) MC_CHECK(d.to_string() != n, MISC, "default has an enumerator's name");
        Event ev = guarded([&] { (void)d.backing_enum(); });
        MC_CHECK(ev.kind == EV_ABORT, MISC | CHK, "backing_enum() of an empty rich enum must abort");
        ev = guarded([&] { (void)d.ordinal(); });
        MC_CHECK(ev.kind == EV_ABORT, MISC | CHK, "ordinal() of an empty rich enum must abort");
        ev = guarded([&] { (void)static_cast<BE>(d); });
        MC_CHECK(ev.kind == EV_ABORT, MISC | CHK, "conversion of an empty rich enum must abort");
        d = want.front().v;
        MC_CHECK(d.has_value() && d == want.front().v && !(d == d2), MISC, "assignment to an empty one");
        d = d2;
        MC_CHECK(!d.has_value() && d == d2, MISC, "assignment of an empty one");
    }
    if constexpr (std::is_same_v<U, bool>)
    {
        enter("operator!");
        MC_CHECK(!want[0].v == want[1].v && !want[1].v == want[0].v && !!want[0].v == want[0].v, MISC, "operator! of a bool enum");
    }
    // as keys
    enter(cat_str("containers keyed by ", nm));
    fc::EnumMap<T, int> m;
    fc::EnumSet<T> s;
    int k = 0;
    for (auto& w : want) { m[w.v] = k++; s.insert(w.v); }
    k = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++k) MC_CHECK(it->first == want[(std::size_t)k].v && it->second == k, MISC, "EnumMap order");
    k = 0;
    for (const T& t : s) MC_CHECK(t == want[(std::size_t)k++].v, MISC, "EnumSet order");
}
#define X(T, e, n) Expected<T>{T::e, (long long)n, #e}
#define Y(T, e, n) Expected<T>{T::make(T##B::e), (long long)n, #e}
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    init_slots(64);
    g_program = "enum reflection";
    g_notes["enumerated"] = 1;
    using namespace en;
    adapter<Plain>({X(Plain, ALPHA, 0), X(Plain, BETA, 1), X(Plain, GAMMA, 2), X(Plain, DELTA, 3)}, "Plain");
    adapter<Gaps>({X(Gaps, MINUS, -3), X(Gaps, ZERO, 0), X(Gaps, SEVEN, 7), X(Gaps, BIG, 100)}, "Gaps");
    adapter<One>({X(One, ONLY, 5)}, "One");
    adapter<Old>({{OLD_A, 1, "OLD_A"}, {OLD_B, 4, "OLD_B"}, {OLD_C, 9, "OLD_C"}}, "Old");
    adapter<Many>({X(Many, A, 0), X(Many, B, 1), X(Many, C, 2), X(Many, D, 3), X(Many, E, 20), X(Many, F, 21), X(Many, G, 22), X(Many, H, 120)}, "Many");
    adapter<Ad>({X(Ad, P, 50), X(Ad, Q, 3), X(Ad, S, 40)}, "Ad");
    MC_CHECK(re::EnumAdapter<None_>::count() == 0 && re::EnumAdapter<None_>::values().empty(), MISC, "enum without enumerators");
    rich<Rich>({{Rich::C_ONE(), 19, "C_ONE"}, {Rich::C_TWO(), 21, "C_TWO"}, {Rich::C_THREE(), 23, "C_THREE"}, {Rich::C_FOUR(), 25, "C_FOUR"}}, "Rich");
    rich<en::Bool>({{en::Bool::NO(), 0, "NO"}, {en::Bool::YES(), 1, "YES"}}, "Bool");
    rich<Zero>({Y(Zero, A, 0), Y(Zero, AB, 1), Y(Zero, ABC, 2), Y(Zero, B, 3)}, "Zero");
    rich<Shift>({Y(Shift, ONE, 1), Y(Shift, TWO, 2), Y(Shift, THREE, 3), Y(Shift, FOUR, 4)}, "Shift");
    rich<Perm>({Y(Perm, Y, 0), Y(Perm, W, 1), Y(Perm, X, 2), Y(Perm, Z, 3)}, "Perm");
    rich<Neg>({Y(Neg, LO, -128), Y(Neg, M, -1), Y(Neg, Z, 0), Y(Neg, P, 1), Y(Neg, HI, 126)}, "Neg");
    rich<Byte>({Y(Byte, LO, 0), Y(Byte, MID, 100), Y(Byte, HI, 127)}, "Byte");
    rich<Single>({Y(Single, ONLY, 3)}, "Single");
    rich<U64>({Y(U64, A, 5), Y(U64, C, 7), Y(U64, B, 120)}, "U64");
    rich<Rot>({Y(Rot, C, 2), Y(Rot, A, 0), Y(Rot, D, 3), Y(Rot, B, 1)}, "Rot");
    rich<Far>({Y(Far, HUGE_, 5000000000), Y(Far, ONE, 1), Y(Far, LOW, -5000000000), Y(Far, WRAP, 4294967299)}, "Far");
    rich<Top>({Y(Top, HI, 254), Y(Top, LO, 0), Y(Top, MID, 128)}, "Top");
    enter("data of the values");
    for (int i = 0; i < 4; ++i) MC_CHECK(Rot::values()[(std::size_t)i].extra_ == 100 + i && Rot::make(Rot::values()[(std::size_t)i].backing_enum()).extra_ == 100 + i, MISC, "value_of loses data");
    for (int i = 0; i < 4; ++i) MC_CHECK(Far::value_of(Far::values()[(std::size_t)i].to_string())->extra_ == 100 + i, MISC, "value_of(name) loses data");
    MC_CHECK(g_san_reports == 0, MISC | LIFE, "undefined behaviour reported");
    finish(0);
}
