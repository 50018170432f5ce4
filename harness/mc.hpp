// Explicit-state model checker that drives the real containers of /repo.
//
// One "system" owns SLOTS (static byte buffers in which real container objects live) and a
// reference model.  A state is the raw bytes of slot 0 + the liveness map of the tracked elements
// in it + the serialized model.  The explorer enumerates breadth-first every operation of the
// alphabet in every reachable state.  Restoring a state copies its bytes back to the very same
// addresses, so the real code continues exactly as it would have.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <compare>
#include <csetjmp>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <sys/time.h>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

extern "C" void __sanitizer_set_report_path(const char*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));

namespace mc
{
// ---------------------------------------------------------------- categories
enum Cat : std::uint32_t
{
    SEM = 1,        // content / returned value / returned position differs from the std model
    ITER = 2,       // iterator laws
    LIFE = 4,       // element lifetimes, memory errors
    CHK = 8,        // error reporting (missing, spurious, wrong kind or figures)
    STAB = 16,      // address / iterator stability
    COPY = 32,      // copy, move, assign, swap
    CMP = 64,       // comparison operators
    RELOC = 128,    // byte relocation / trivial copyability
    ALLOC = 256,    // dynamic allocation
    CRASH = 512,    // abort, fatal signal, hang in a legal operation
    BAL = 1024,     // balance
    VIEW = 2048,    // raw views
    CEXPR = 4096,   // constant evaluation parity
    MISC = 8192,    // single-purpose harnesses
    NULTERM = 16384 // string termination
};

inline std::uint32_t g_mask = 0xFFFFFFFFu;
inline std::uint64_t g_transitions = 0;
inline std::uint64_t g_states = 0;
inline std::uint64_t g_checks = 0;      // individual oracle evaluations
inline std::uint64_t g_pairs = 0;
inline std::uint64_t g_errs_expected = 0;  // transitions in which misuse was (rightly) reported
inline std::map<std::string, std::uint64_t> g_notes;
inline std::string g_sample;

// ---------------------------------------------------------------- failure plumbing
inline std::string g_current_op = "(init)";
inline std::function<std::string()> g_trace_fn;  // prints the path to the current state
inline std::string g_program = "?";
inline std::string g_diverged_msg;
inline bool g_diverged = false;  // a failure of a category that is not enabled: prune
inline std::uint64_t g_pruned = 0;

[[noreturn]] inline void finish(int rc);

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c));
            o += b;
        }
        else o += c;
    }
    return o;
}

inline void violation(std::uint32_t cat, const std::string& msg)
{
    const std::string trace = g_trace_fn ? g_trace_fn() : std::string("[]");
    std::printf("RESULT {\"kind\":\"violation\",\"cat\":%u,\"msg\":\"%s\",\"op\":\"%s\",\"trace\":%s}\n",
                cat, jesc(msg).c_str(), jesc(g_current_op).c_str(), trace.c_str());
    std::fflush(stdout);
    finish(1);
}

// Report if the category is enabled for this run, otherwise remember that the model and the code
// parted ways (the state is then not expanded further).
inline std::uint32_t g_op_kind = 0;  // what the operation under way is an instance of (COPY, RELOC, ...)
inline void fail(std::uint32_t cat, const std::string& msg)
{
    // a wrong result of, or directly after, a copy is a wrong copy, and so on
    if ((cat & (SEM | ITER | LIFE | CRASH | COPY)) != 0) cat |= g_op_kind;
    if ((cat & g_mask) != 0) violation(cat, msg);
    if ((cat & (SEM | LIFE | CHK | CRASH | COPY)) != 0)
    {
        g_diverged = true;
        g_diverged_msg = msg;
    }
}
template <class... A>
inline std::string cat_str(const A&... a)
{
    std::string s;
    auto add = [&](const auto& x)
    {
        if constexpr (std::is_convertible_v<decltype(x), std::string_view>) s += std::string_view(x);
        else s += std::to_string(x);
    };
    (add(a), ...);
    return s;
}
#define MC_CHECK(cond, cat, ...)                                                     \
    do                                                                               \
    {                                                                                \
        ++::mc::g_checks;                                                            \
        if (!(cond)) ::mc::fail((cat), ::mc::cat_str(__VA_ARGS__) + " [" #cond "]"); \
    } while (0)

// ---------------------------------------------------------------- events: error policy, abort ...
#ifndef MC_HANG_TICKS
#define MC_HANG_TICKS 20  // quarters of a second of CPU time without progress
#endif
enum Ev { EV_NONE, EV_OUT_OF_RANGE, EV_LENGTH, EV_EMPTY, EV_INVALID, EV_ABORT, EV_SIGNAL, EV_HANG };
inline const char* ev_name(int e)
{
    static const char* n[] = {"none", "out_of_range", "length_error", "empty_container_access",
                              "invalid_argument", "abort", "signal", "hang"};
    return n[e];
}
struct Event
{
    int kind = EV_NONE;
    long a = -1;  // index / key / target capacity
    long b = -1;  // size
};
inline Event g_event;
inline sigjmp_buf g_jb;
inline volatile bool g_armed = false;
inline volatile bool g_in_real = false;  // inside a call of the code under test
inline volatile std::uint64_t g_allocs = 0;
inline volatile std::uint64_t g_san_reports = 0;
inline volatile std::uint64_t g_tick_last = 0;
inline volatile int g_tick_same = 0;
inline volatile std::uint64_t g_progress = 0;

[[noreturn]] inline void raise_event(int kind, long a = -1, long b = -1)
{
    if (!g_armed)
    {
        std::printf("RESULT {\"kind\":\"internal\",\"msg\":\"event %s outside of a transition, op %s\"}\n",
                    ev_name(kind), jesc(g_current_op).c_str());
        std::fflush(stdout);
        _exit(3);
    }
    g_event = Event{kind, a, b};
    g_armed = false;
    g_in_real = false;
    siglongjmp(g_jb, 1);
}

inline void on_signal(int sig)
{
    if (sig == SIGVTALRM)
    {
        if (!g_armed) return;
        if (g_tick_last == g_progress)
        {
            if (++g_tick_same >= MC_HANG_TICKS) { g_tick_same = 0; raise_event(EV_HANG); }
        }
        else { g_tick_last = g_progress; g_tick_same = 0; }
        return;
    }
    raise_event(EV_SIGNAL, sig);
}

inline std::function<void()> g_finish_fn;
[[noreturn]] inline void finish(int rc)
{
    std::printf("RESULT {\"kind\":\"summary\",\"program\":\"%s\",\"states\":%llu,\"transitions\":%llu,"
                "\"checks\":%llu,\"pairs\":%llu,\"misuse\":%llu,\"pruned\":%llu,\"rc\":%d",
                jesc(g_program).c_str(), (unsigned long long)g_states, (unsigned long long)g_transitions,
                (unsigned long long)g_checks, (unsigned long long)g_pairs,
                (unsigned long long)g_errs_expected, (unsigned long long)g_pruned, rc);
    for (auto& [k, v] : g_notes) std::printf(",\"%s\":%llu", jesc(k).c_str(), (unsigned long long)v);
    if (!g_sample.empty()) std::printf(",\"sample\":\"%s\"", jesc(g_sample).c_str());
    if (g_pruned) std::printf(",\"prune_reason\":\"%s\"", jesc(g_diverged_msg).c_str());
    std::printf("}\n");
    std::fflush(stdout);
    _exit(rc);
}

// Calls of the code under test go through R(...): allocations, sanitizer reports and hangs are
// attributed to them.
struct RealScope
{
    RealScope() { g_in_real = true; ++g_progress; }
    ~RealScope() { g_in_real = false; }
};
#define R(...) [&]() -> decltype(auto) { ::mc::RealScope mc_rs_; return __VA_ARGS__; }()

// Run `body`, return the event that interrupted it (EV_NONE when it completed).
template <class F>
__attribute__((noinline)) Event guarded(F&& body)
{
    g_event = Event{};
    if (sigsetjmp(g_jb, 0) == 0)
    {
        g_armed = true;
        ++g_progress;
        body();
        g_armed = false;
    }
    g_in_real = false;
    return g_event;
}

inline void malloc_hook(const volatile void*, size_t) { if (g_in_real) g_allocs = g_allocs + 1; }
inline void free_hook(const volatile void*) {}

inline void init_runtime()
{
    struct sigaction sa{};
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
    itimerval t{{0, 250000}, {0, 250000}};
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
#ifdef MC_ASAN
    __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
    __sanitizer_set_report_path("/dev/null");
#endif
}

// ---------------------------------------------------------------- error policies
// (the length/kinds are compared with what the model expects)
template <class Tag = void>
struct RecSeqChecking
{
    template <class L>
    [[noreturn]] static void out_of_range(std::size_t i, std::size_t n, const L&) { raise_event(EV_OUT_OF_RANGE, (long)i, (long)n); }
    template <class L>
    [[noreturn]] static void length_error(std::size_t n, const L&) { raise_event(EV_LENGTH, (long)n); }
    template <class L>
    [[noreturn]] static void empty_container_access(const L&) { raise_event(EV_EMPTY); }
    template <class M, class L>
    [[noreturn]] static void invalid_argument(const M&, const L&) { raise_event(EV_INVALID); }
};

// ---------------------------------------------------------------- slots and liveness registry
inline constexpr std::size_t SLOT_MAX = 8192;
inline constexpr std::size_t PAD = 256;
inline constexpr int NSLOT = 3;
inline constexpr unsigned char CANARY = 0xC7;
struct alignas(64) SlotBuf
{
    unsigned char pre[PAD];
    alignas(64) unsigned char body[SLOT_MAX];
};
inline SlotBuf g_slots[NSLOT + 1];
inline unsigned char g_live[NSLOT][SLOT_MAX];
inline std::size_t g_live_count[NSLOT];
inline std::size_t g_slot_size = 0;  // bytes of the container type
inline std::vector<const void*> g_stack_live;
inline std::string g_life_error;
inline bool g_tracking = true;

inline bool in_slot(const void* p, int& slot, std::size_t& off)
{
    const auto u = reinterpret_cast<std::uintptr_t>(p);
    for (int i = 0; i < NSLOT; ++i)
    {
        const auto b = reinterpret_cast<std::uintptr_t>(g_slots[i].body);
        if (u >= b && u < b + SLOT_MAX) { slot = i; off = u - b; return true; }
    }
    return false;
}
inline void life_error(const char* what, const void* p)
{
    if (!g_life_error.empty()) return;
    int s; std::size_t o;
    const bool keep = g_in_real;
    g_in_real = false;
    g_life_error = in_slot(p, s, o) ? cat_str(what, " (container slot ", s, ", offset ", (long)o, ")")
                                    : cat_str(what, " (object outside of the container)");
    g_in_real = keep;
}
inline bool is_live(const void* p)
{
    int s; std::size_t o;
    if (in_slot(p, s, o)) return g_live[s][o] != 0;
    for (auto it = g_stack_live.rbegin(); it != g_stack_live.rend(); ++it) if (*it == p) return true;
    return false;
}
inline void born(const void* p)
{
    if (is_live(p)) { life_error("element constructed on top of a live element", p); return; }
    int s; std::size_t o;
    if (in_slot(p, s, o)) { g_live[s][o] = 1; ++g_live_count[s]; }
    else
    {
        const bool keep = g_in_real;
        g_in_real = false;
        g_stack_live.push_back(p);
        g_in_real = keep;
    }
}
inline bool died(const void* p)
{
    int s; std::size_t o;
    if (in_slot(p, s, o))
    {
        if (!g_live[s][o]) { life_error("element destroyed that is not alive", p); return false; }
        g_live[s][o] = 0; --g_live_count[s];
        return true;
    }
    for (std::size_t i = g_stack_live.size(); i-- > 0;)
        if (g_stack_live[i] == p) { g_stack_live.erase(g_stack_live.begin() + (long)i); return true; }
    life_error("element destroyed that is not alive", p);
    return false;
}
inline void used(const void* p, const char* what) { if (!is_live(p)) life_error(what, p); }

inline constexpr int DEADV = -77777;
inline constexpr int MOVEDV = -55555;

// Element with full lifetime tracking.
struct Tracked
{
    int v;
    constexpr Tracked() : v(0) { if (!std::is_constant_evaluated()) born(this); }
    constexpr Tracked(int x) : v(x) { if (!std::is_constant_evaluated()) born(this); }
    constexpr Tracked(const Tracked& o) : v(o.v) { if (!std::is_constant_evaluated()) { used(&o, "copy from an element that is not alive"); born(this); } }
    constexpr Tracked(Tracked&& o) noexcept : v(o.v)
    {
        if (!std::is_constant_evaluated()) { used(&o, "move from an element that is not alive"); born(this); if (&o != this) o.v = MOVEDV; }
        else o.v = MOVEDV;
    }
    constexpr Tracked& operator=(const Tracked& o)
    {
        if (!std::is_constant_evaluated()) { used(&o, "copy-assign from an element that is not alive"); used(this, "assignment to an element that is not alive"); }
        v = o.v;
        return *this;
    }
    constexpr Tracked& operator=(Tracked&& o) noexcept
    {
        if (!std::is_constant_evaluated()) { used(&o, "move-assign from an element that is not alive"); used(this, "assignment to an element that is not alive"); }
        const int t = o.v;
        if (&o != this) o.v = MOVEDV;
        v = t;
        return *this;
    }
    constexpr ~Tracked() { if (!std::is_constant_evaluated()) { died(this); } *const_cast<volatile int*>(&v) = DEADV; }
    constexpr int get() const { if (!std::is_constant_evaluated()) used(this, "read of an element that is not alive"); return v; }
    friend constexpr bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
    friend constexpr auto operator<=>(const Tracked& a, const Tracked& b) { return a.get() <=> b.get(); }
};
// Same, but cannot be copied.
struct MoveOnly
{
    int v;
    constexpr MoveOnly() : v(0) { born(this); }
    constexpr MoveOnly(int x) : v(x) { born(this); }
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) noexcept : v(o.v) { used(&o, "move from an element that is not alive"); born(this); if (&o != this) o.v = MOVEDV; }
    MoveOnly& operator=(MoveOnly&& o) noexcept
    {
        used(&o, "move-assign from an element that is not alive");
        used(this, "assignment to an element that is not alive");
        const int t = o.v;
        if (&o != this) o.v = MOVEDV;
        v = t;
        return *this;
    }
    ~MoveOnly() { died(this); *const_cast<volatile int*>(&v) = DEADV; }
    int get() const { used(this, "read of an element that is not alive"); return v; }
    friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }
    friend auto operator<=>(const MoveOnly& a, const MoveOnly& b) { return a.get() <=> b.get(); }
};
// Trivially copyable, not default constructible, of an odd size and without padding bytes.
struct Triv
{
    unsigned char b[5];
    constexpr Triv(int x) : b{(unsigned char)(x & 255), (unsigned char)((x >> 8) & 255), (unsigned char)((x >> 16) & 255), (unsigned char)((x >> 24) & 255), 0x5E} {}
    constexpr int get() const { return b[4] != 0x5E ? -99999 : (int)((unsigned)b[0] | (unsigned)b[1] << 8 | (unsigned)b[2] << 16 | (unsigned)b[3] << 24); }
    friend constexpr bool operator==(const Triv& a, const Triv& b) { return a.get() == b.get(); }
    friend constexpr auto operator<=>(const Triv& a, const Triv& b) { return a.get() <=> b.get(); }
};
// Trivial copy/move construction, non-trivial assignment.
struct HalfTriv
{
    int v;
    constexpr HalfTriv(int x) : v(x) {}
    constexpr HalfTriv(const HalfTriv&) = default;
    constexpr HalfTriv(HalfTriv&&) noexcept = default;
    constexpr HalfTriv& operator=(const HalfTriv& o) { v = o.v; return *this; }
    constexpr HalfTriv& operator=(HalfTriv&& o) noexcept { v = o.v; return *this; }
    constexpr int get() const { return v; }
    friend constexpr bool operator==(const HalfTriv& a, const HalfTriv& b) { return a.v == b.v; }
    friend constexpr auto operator<=>(const HalfTriv& a, const HalfTriv& b) { return a.v <=> b.v; }
};
// Over-aligned, and its operator& lies. Trivially copyable, respectively not.
struct alignas(32) Odd
{
    int v;
    int fill[7]{};
    constexpr Odd(int x) : v(x) {}
    constexpr int get() const { return v; }
    Odd* operator&() = delete;
    const Odd* operator&() const = delete;
    friend constexpr bool operator==(const Odd& a, const Odd& b) { return a.v == b.v; }
    friend constexpr auto operator<=>(const Odd& a, const Odd& b) { return a.v <=> b.v; }
};
struct alignas(32) OddNt
{
    int v;
    int fill[7]{};
    constexpr OddNt(int x) : v(x) {}
    constexpr OddNt(const OddNt& o) : v(o.v) {}
    constexpr OddNt(OddNt&& o) noexcept : v(o.v) {}
    constexpr OddNt& operator=(const OddNt& o) { v = o.v; return *this; }
    constexpr OddNt& operator=(OddNt&& o) noexcept { v = o.v; return *this; }
    constexpr ~OddNt() { v = DEADV; }
    constexpr int get() const { return v; }
    OddNt* operator&() = delete;
    const OddNt* operator&() const = delete;
    friend constexpr bool operator==(const OddNt& a, const OddNt& b) { return a.v == b.v; }
    friend constexpr auto operator<=>(const OddNt& a, const OddNt& b) { return a.v <=> b.v; }
};
inline constexpr int val(int x) { return x; }
inline constexpr int val(const Odd& x) { return x.get(); }
inline constexpr int val(const OddNt& x) { return x.get(); }
inline constexpr int val(const Tracked& x) { return x.get(); }
inline int val(const MoveOnly& x) { return x.get(); }
inline constexpr int val(const Triv& x) { return x.get(); }
inline constexpr int val(const HalfTriv& x) { return x.get(); }
template <class E>
inline constexpr bool is_tracked = std::is_same_v<E, Tracked> || std::is_same_v<E, MoveOnly>;

// Single-pass input iterator over ints that yields T.
template <class T>
struct InIt
{
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    using iterator_category = std::input_iterator_tag;
    const int* p = nullptr;
    T operator*() const { return T(*p); }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { InIt t = *this; ++p; return t; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
};
// Multi-pass forward iterator (not random access).
template <class T>
struct FwIt
{
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    using iterator_category = std::forward_iterator_tag;
    const int* p = nullptr;
    T operator*() const { return T(*p); }
    FwIt& operator++() { ++p; return *this; }
    FwIt operator++(int) { FwIt t = *this; ++p; return t; }
    friend bool operator==(const FwIt& a, const FwIt& b) { return a.p == b.p; }
};

inline int g_rot = 0;  // which physical buffer stands for slot 0 (rotated to relocate containers)
inline unsigned char* slot(int i) { return g_slots[(i + g_rot) % NSLOT].body; }
inline void wipe_slot(int i)
{
    std::memset(slot(i), 0xA5, g_slot_size);
    if (g_live_count[i]) { std::memset(g_live[i], 0, g_slot_size); g_live_count[i] = 0; }
}
inline void init_slots(std::size_t size)
{
    if (size > SLOT_MAX) { std::printf("RESULT {\"kind\":\"internal\",\"msg\":\"container too big %zu\"}\n", size); _exit(3); }
    g_slot_size = size;
    std::memset(g_slots, CANARY, sizeof g_slots);
    std::memset(g_live, 0, sizeof g_live);
    for (int i = 0; i < NSLOT; ++i) { g_live_count[i] = 0; std::memset(slot(i), 0xA5, size); }
}
inline bool canaries_ok()
{
    static unsigned char ref[PAD];
    static bool init = (std::memset(ref, CANARY, PAD), true);
    (void)init;
    for (int i = 0; i < NSLOT; ++i)
    {
        if (std::memcmp(g_slots[i].pre, ref, PAD) != 0) return false;
        if (std::memcmp(g_slots[i].body + g_slot_size, ref, PAD) != 0) return false;
    }
    return true;
}

// ---------------------------------------------------------------- explorer
struct Options
{
    std::uint64_t max_states = 200000;
    int max_depth = 1000000;
    bool pairs = false;
    std::uint64_t max_pairs = 4000000;
    std::vector<int> replay;
    bool list_ops = false;
    double time_limit = 120;   // the exploration stops (and says so) after this many seconds
    int root = 0;           // replay: initial state
    bool abstract = false;  // identify states by the system's abstraction instead of by raw bytes
};
inline Options g_opt;
inline std::uint32_t kind_of_op(const std::string& name)
{
    auto starts = [&](const char* p) { return name.rfind(p, 0) == 0; };
    if (starts("byte-relocate")) return RELOC;
    if (starts("copy") || starts("move") || starts("swap") || starts("self ") || starts("pair ")) return COPY;
    return 0;
}
inline void parse_args(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--mask") g_mask = (std::uint32_t)std::stoul(next());
        else if (a == "--max-states") g_opt.max_states = std::stoull(next());
        else if (a == "--max-depth") g_opt.max_depth = std::stoi(next());
        else if (a == "--pairs") { g_opt.pairs = true; g_opt.max_pairs = std::stoull(next()); }
        else if (a == "--root") g_opt.root = std::stoi(next());
        else if (a == "--abstract") g_opt.abstract = true;
        else if (a == "--time") g_opt.time_limit = std::stod(next());
        else if (a == "--replay")
        {
            std::string s = next();
            for (std::size_t p = 0; p < s.size();)
            {
                auto q = s.find(',', p);
                if (q == std::string::npos) q = s.size();
                if (q > p) g_opt.replay.push_back(std::stoi(s.substr(p, q - p)));
                p = q + 1;
            }
            g_opt.replay.push_back(-1);
        }
        else { std::printf("bad arg %s\n", a.c_str()); _exit(3); }
    }
}
inline double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

// Sys must provide:
//   using M;  M model;                     -- reference model (copyable)
//   std::string ser(const M&)              -- injective serialization
//   M deser(const char*, size_t)
//   void construct_initial()               -- container in slot 0, model
//   void observe()                         -- all const observations against the model
//   std::vector<Op> ops
//   static constexpr bool TRACKED
struct Expect
{
    bool err = false;
    int kind = EV_NONE;
    long a = -1, b = -1;   // -1: not compared
    bool any = false;      // any report (default policy: abort)
    long a_min = -1;       // the figure may be anything from a_min to a
};
inline Expect g_expect;
inline bool g_abort_policy = false;  // container uses the default (aborting) policy
inline void expect_err(int kind, long a = -1, long b = -1)
{
    g_expect = Expect{true, kind, a, b, false};
}

template <class Sys>
struct Op
{
    std::string name;
    std::function<bool(Sys&)> fn;  // returns false when not enabled in this state
};

template <class Sys>
struct Explorer
{
    Sys& s;
    struct Node { std::uint32_t parent; std::uint32_t op; std::uint32_t off_len; std::uint64_t off; };
    std::vector<Node> nodes;
    std::string arena;
    std::unordered_multimap<std::uint64_t, std::uint32_t> seen;
    std::uint32_t cur = 0;
    int cur_op = -1;
    std::unordered_set<std::uint32_t> pruned_nodes;
    bool straight = false;          // replay mode: no restore
    std::vector<int> straight_trace;

    explicit Explorer(Sys& sys) : s(sys) {}

    void snapshot(std::string& out)
    {
        out.assign(reinterpret_cast<const char*>(slot(0)), g_slot_size);
        if constexpr (Sys::TRACKED)
        {
            std::string bits((g_slot_size + 31) / 32, '\0');
            for (std::size_t i = 0; i < g_slot_size; i += 4)
                if (g_live[0][i]) bits[i / 32] = (char)(bits[i / 32] | (1 << ((i / 4) % 8)));
            out += bits;
        }
        out += s.ser(s.model);
    }
    void restore(std::uint32_t n)
    {
        const Node& nd = nodes[n];
        const char* p = arena.data() + nd.off;
        for (int i = 1; i < NSLOT; ++i) wipe_slot(i);
        std::memcpy(slot(0), p, g_slot_size);
        std::size_t hdr = g_slot_size;
        std::memset(g_live[0], 0, g_slot_size);
        g_live_count[0] = 0;
        if constexpr (Sys::TRACKED)
        {
            const char* bits = p + g_slot_size;
            for (std::size_t i = 0; i < g_slot_size; i += 4)
                if (bits[i / 32] & (1 << ((i / 4) % 8))) { g_live[0][i] = 1; ++g_live_count[0]; }
            hdr += (g_slot_size + 31) / 32;
        }
        s.model = s.deser(p + hdr, nd.off_len - hdr);
        g_stack_live.clear();
    }
    static std::uint64_t hash(const std::string& k)
    {
        std::uint64_t h = 1469598103934665603ull;
        std::size_t i = 0;
        for (; i + 8 <= k.size(); i += 8)
        {
            std::uint64_t w;
            std::memcpy(&w, k.data() + i, 8);
            h = (h ^ w) * 0x9E3779B97F4A7C15ull;
            h ^= h >> 29;
        }
        for (; i < k.size(); ++i) h = (h ^ (unsigned char)k[i]) * 1099511628211ull;
        return h ^ (h >> 32);
    }
    // returns true when new
    std::unordered_set<std::string> seen_abs;
    bool abs_ignores_model = false;
    bool add(const std::string& key, std::uint32_t parent, std::uint32_t op)
    {
        if constexpr (requires { s.abs_key(); })
            if (g_opt.abstract)
            {
                std::string a;
                (void)guarded([&] { a = s.abs_key(); });
                g_stack_live.clear();
                if (!abs_ignores_model) a += "|" + s.ser(s.model);
                if (!seen_abs.insert(a).second) return false;
                nodes.push_back(Node{parent, op, (std::uint32_t)key.size(), arena.size()});
                arena += key;
                return true;
            }
        const auto h = hash(key);
        auto [b, e] = seen.equal_range(h);
        for (auto it = b; it != e; ++it)
        {
            const Node& n = nodes[it->second];
            if (n.off_len == key.size() && std::memcmp(arena.data() + n.off, key.data(), key.size()) == 0) return false;
        }
        nodes.push_back(Node{parent, op, (std::uint32_t)key.size(), arena.size()});
        arena += key;
        seen.emplace(h, (std::uint32_t)nodes.size() - 1);
        return true;
    }
    std::vector<int> path_to(std::uint32_t n)
    {
        std::vector<int> p;
        while (nodes[n].parent != n) { p.push_back((int)nodes[n].op); n = nodes[n].parent; }
        std::reverse(p.begin(), p.end());
        return p;
    }
    int root_of(std::uint32_t n)
    {
        if (straight || nodes.empty()) return cur_root;
        while (nodes[n].parent != n) n = nodes[n].parent;
        return (int)nodes[n].op;
    }
    int cur_root = 0;
    int root_count()
    {
        if constexpr (requires { s.root_count(); }) return s.root_count();
        else return 1;
    }
    std::string root_name(int k)
    {
        if constexpr (requires { s.root_name(k); }) return s.root_name(k);
        else { (void)k; return "default construction"; }
    }
    static constexpr std::uint32_t PAIR_EDGE = 0x40000000u;  // op = PAIR_EDGE + k: pair operation k
    std::string op_name(int o)
    {
        if ((std::uint32_t)o >= PAIR_EDGE)
        {
            if constexpr (requires { s.pair_assign(0); })
                return cat_str("then ", s.pair_assign_name(o - (int)PAIR_EDGE), " with another reachable state");
        }
        return s.ops[(std::size_t)o].name;
    }
    std::string trace_json()
    {
        std::vector<int> p = straight ? straight_trace : path_to(cur);
        if (cur_op >= 0) p.push_back(cur_op);
        bool pair_edge = false;
        for (int o : p) pair_edge = pair_edge || (std::uint32_t)o >= PAIR_EDGE;
        const int rt = in_init ? cur_root : root_of(cur);
        if (in_init) p.clear();
        std::string o = "{\"root\":" + std::to_string(rt) + ",\"root_name\":\"" + jesc(root_name(rt)) + "\",";
        if (!pair_edge)
        {
            o += "\"ops\":[";
            for (std::size_t i = 0; i < p.size(); ++i) o += (i ? "," : "") + std::to_string(p[i]);
            o += "],";
        }
        o += "\"names\":[";
        for (std::size_t i = 0; i < p.size(); ++i) o += (i ? ",\"" : "\"") + jesc(op_name(p[i])) + "\"";
        return o + "]}";
    }
    // Executes one operation in the current (restored) state. Returns 0 not enabled, 1 ok (state
    // advanced), 2 terminal (misuse reported as expected, or pruned)
    int step(int opi, std::uint32_t kind = 0)
    {
        cur_op = opi;
        g_current_op = s.ops[(std::size_t)opi].name;
        g_op_kind = kind_of_op(g_current_op) | kind;
        if (kind == RELOC) g_current_op += " at another address";
        g_expect = Expect{};
        g_diverged = false;
        g_life_error.clear();
        const auto allocs0 = g_allocs;
        const auto san0 = g_san_reports;
        bool enabled = false;
        const Event ev = guarded([&] { enabled = s.ops[(std::size_t)opi].fn(s); });
        if (ev.kind == EV_NONE && !enabled) return 0;
        ++g_transitions;
        after(ev, allocs0, san0);
        if (g_diverged) { ++g_pruned; return 2; }
        if (g_expect.err) { ++g_errs_expected; return 2; }
        return 1;
    }
    void after(const Event& ev, std::uint64_t allocs0, std::uint64_t san0)
    {
        if (g_expect.err)
        {
            const bool reported = ev.kind >= EV_OUT_OF_RANGE && ev.kind <= EV_ABORT;
            if (ev.kind == EV_NONE) fail(CHK, cat_str("misuse not reported, expected ", ev_name(g_expect.kind)));
            else if (!reported) fail(CHK | CRASH, cat_str("misuse not reported but ", ev_name(ev.kind), ", expected ", ev_name(g_expect.kind)));
            else if (g_abort_policy)
                MC_CHECK(ev.kind == EV_ABORT, CHK, "misuse must abort under the default policy, got ", ev_name(ev.kind));
            else
            {
                MC_CHECK(ev.kind == g_expect.kind, CHK, "misuse reported as ", ev_name(ev.kind), ", expected ", ev_name(g_expect.kind));
                MC_CHECK(g_expect.a < 0 || ev.a == g_expect.a || (g_expect.a_min >= 0 && ev.a >= g_expect.a_min && ev.a <= g_expect.a), CHK, "misuse reported with figure ", ev.a, ", expected ", g_expect.a);
                MC_CHECK(g_expect.b < 0 || ev.b == g_expect.b, CHK, "misuse reported with size ", ev.b, ", expected ", g_expect.b);
            }
        }
        else if (ev.kind != EV_NONE)
        {
            if (ev.kind <= EV_INVALID)
                fail(SEM | CHK | CRASH, cat_str("legal operation reported ", ev_name(ev.kind), " ", ev.a, " ", ev.b));
            else
                fail(SEM | CHK | CRASH | LIFE, cat_str("legal operation ended with ", ev_name(ev.kind), " ", ev.a));
        }
        if (!g_life_error.empty() && !g_expect.err) { const std::string m = g_life_error; g_life_error.clear(); fail(LIFE, m); }
        MC_CHECK(g_allocs == allocs0 || g_expect.err, ALLOC, "operation allocated dynamic memory");
        MC_CHECK(g_san_reports == san0, LIFE | CHK | CRASH, "memory error / undefined behaviour reported by the sanitizer");
        MC_CHECK(canaries_ok(), LIFE | CHK | CRASH, "bytes outside of the container were written");
        if (Sys::TRACKED && !g_expect.err && ev.kind == EV_NONE)
        {
            MC_CHECK(g_live_count[1] == 0 && g_live_count[2] == 0, LIFE, "elements left behind in a destroyed container");
            if (g_tracking) MC_CHECK(g_stack_live.empty(), LIFE, "temporary element leaked");
        }
    }
    void observe_guarded()
    {
        g_current_op += " / observe";
        std::string before(reinterpret_cast<const char*>(slot(0)), g_slot_size);
        g_expect = Expect{};
        g_life_error.clear();
        const auto allocs0 = g_allocs;
        const auto san0 = g_san_reports;
        const Event ev = guarded([&] { s.observe(); });
        if (ev.kind != EV_NONE) fail(SEM | CHK | CRASH | ITER, cat_str("observation ended with ", ev_name(ev.kind), " ", ev.a, " ", ev.b));
        if (!g_life_error.empty()) { const std::string m = g_life_error; g_life_error.clear(); fail(LIFE, m); }
        MC_CHECK(g_allocs == allocs0, ALLOC, "observer allocated dynamic memory");
        MC_CHECK(g_san_reports == san0, LIFE | CHK | CRASH, "memory error / undefined behaviour in an observer");
        if (Sys::TRACKED && g_tracking) MC_CHECK(g_stack_live.empty(), LIFE, "temporary element leaked by an observer");
        MC_CHECK(std::memcmp(before.data(), slot(0), g_slot_size) == 0, SEM, "a const observer modified the container");
    }
    bool in_init = false;
    void init_root(int k)
    {
        for (int i = 0; i < NSLOT; ++i) wipe_slot(i);
        g_stack_live.clear();
        cur_op = -1;
        cur_root = k;
        in_init = true;
        g_current_op = "(initial construction)";
        g_op_kind = 0;
        g_expect = Expect{};
        g_diverged = false;
        g_life_error.clear();
        const auto allocs0 = g_allocs;
        const auto san0 = g_san_reports;
        const Event ev = guarded([&]
        {
            if constexpr (requires { s.construct_root(k); }) s.construct_root(k);
            else s.construct_initial();
        });
        ++g_transitions;
        after(ev, allocs0, san0);
        if (g_diverged) { ++g_pruned; in_init = false; return; }
        if (g_expect.err) { ++g_errs_expected; in_init = false; return; }
        std::string key;
        snapshot(key);
        if (add(key, (std::uint32_t)nodes.size(), (std::uint32_t)k)) observe_guarded();
        if (g_diverged) { ++g_pruned; pruned_nodes.insert((std::uint32_t)nodes.size() - 1); }
        in_init = false;
    }
    void init()
    {
        g_trace_fn = [this] { return trace_json(); };
        if (straight) { init_root(g_opt.root); return; }
        for (int k = 0; k < root_count(); ++k) init_root(k);
        g_notes["initial_states"] += nodes.size();
    }
    void run_replay()
    {
        straight = true;
        init();
        for (int o : g_opt.replay)
        {
            if (o < 0) break;
            if (relocating())
            {
                const std::string b(reinterpret_cast<const char*>(slot(0)), g_slot_size);
                wipe_slot(0);
                g_rot = (g_rot + 1) % NSLOT;
                std::memcpy(slot(0), b.data(), g_slot_size);
            }
            const int r = step(o, relocating() ? RELOC : 0);
            if (r == 0) { std::printf("RESULT {\"kind\":\"internal\",\"msg\":\"replay: op not enabled\"}\n"); finish(3); }
            if (r == 2) break;
            observe_guarded();
            straight_trace.push_back(o);
            cur_op = -1;
        }
        finish(0);
    }
    void run()
    {
        if (!g_opt.replay.empty()) run_replay();
        const double t0 = now();
        init();
        std::vector<std::uint64_t> op_ok(s.ops.size()), op_err(s.ops.size());
        int complete_depth = 0;
        bool capped = expand(0, t0, op_ok, op_err, complete_depth);
        if (g_opt.pairs)
        {
            const std::uint32_t first = (std::uint32_t)nodes.size();
            run_pairs();
            if (nodes.size() > first)
            {
                int extra = 0;
                g_notes["states_from_pairs"] += nodes.size() - first;
                capped = expand(first, now(), op_ok, op_err, extra) || capped;
            }
        }
        cur_op = -1;
        g_states += nodes.size();
        g_sample = g_program + ": ";
        for (int o : path_to((std::uint32_t)nodes.size() - 1)) g_sample += op_name(o) + "; ";
        std::uint64_t used_ops = 0;
        for (std::size_t i = 0; i < op_ok.size(); ++i)
            if (op_ok[i] + op_err[i]) ++used_ops;
        g_notes["ops_in_alphabet"] += s.ops.size();
        g_notes["ops_exercised"] += used_ops;
        g_notes["closed"] += capped ? 0 : 1;
        g_notes["runs"] += 1;
        g_notes["max_complete_depth"] = std::max<std::uint64_t>(g_notes["max_complete_depth"], (std::uint64_t)complete_depth);
    }
    // Breadth-first expansion of all nodes from `first` on. Returns true when a bound was hit.
    bool expand(std::uint32_t first, double t0, std::vector<std::uint64_t>& op_ok, std::vector<std::uint64_t>& op_err, int& complete_depth)
    {
        std::string key;
        std::uint32_t level_end = (std::uint32_t)nodes.size();
        int depth = 0;
        for (cur = first; cur < nodes.size(); ++cur)
        {
            if (pruned_nodes.count(cur)) continue;
            if (cur >= level_end)
            {
                level_end = (std::uint32_t)nodes.size();
                ++depth;
                complete_depth = depth;
            }
            if (depth >= g_opt.max_depth) return true;
            if (nodes.size() >= g_opt.max_states || ((cur & 255) == 0 && now() - t0 > g_opt.time_limit)) return true;
            const std::uint32_t me = cur;
            for (int o = 0; o < (int)s.ops.size(); ++o)
            {
                restore(me);
                const int r = step(o);
                if (r == 0) continue;
                if (r == 2)
                {
                    ++op_err[(std::size_t)o];
                    if (relocating() && !g_diverged) step_elsewhere(me, o, r, key);
                    continue;
                }
                ++op_ok[(std::size_t)o];
                snapshot(key);
                if (add(key, me, (std::uint32_t)o)) observe_new();
                if (relocating() && !g_diverged) step_elsewhere(me, o, r, key);
            }
        }
        return false;
    }
    // Does this run relocate every state before every operation?
    static bool relocating()
    {
        if constexpr (requires { Sys::RELOCATABLE; }) return Sys::RELOCATABLE && (g_mask & RELOC) != 0;
        else return false;
    }
    // The same operation on the same bytes at another address: same outcome, equivalent state.
    void step_elsewhere(std::uint32_t me, int o, int r, const std::string& here)
    {
        g_rot = 1;
        restore(me);
        const int r2 = step(o, RELOC);
        MC_CHECK(r2 == r, RELOC, "the relocated container accepts the operation differently");
        if (r == 1 && r2 == 1)
        {
            std::string there;
            snapshot(there);
            ++g_notes["relocated_transitions"];
            if (there != here)
            {
                MC_CHECK(there.substr(g_slot_size) == here.substr(g_slot_size), RELOC, "the relocated container ends in another state");
                observe_guarded();
            }
        }
        g_rot = 0;
        g_diverged = false;
        g_op_kind = 0;
    }
    void observe_new()
    {
        g_diverged = false;
        observe_guarded();
        if (g_diverged)
        {
            // keep it in the visited set but do not expand it
            ++g_pruned;
            pruned_nodes.insert((std::uint32_t)nodes.size() - 1);
            return;
        }
        if (relocating())
        {
            const int keep_op = cur_op;
            const std::string keep_name = g_current_op;
            std::string key(reinterpret_cast<const char*>(slot(0)), g_slot_size);
            g_rot = 1;
            std::memcpy(slot(0), key.data(), g_slot_size);
            wipe_slot(2);  // the original is gone
            g_op_kind |= RELOC;
            g_current_op = keep_name + " at another address";
            observe_guarded();
            std::memcpy(key.data(), slot(0), g_slot_size);
            g_rot = 0;
            std::memcpy(slot(0), key.data(), g_slot_size);
            cur_op = keep_op;
            g_current_op = keep_name;
        }
    }
    // All ordered pairs (x in slot 0, y in slot 1) of reachable states.
    void run_pairs()
    {
        if constexpr (requires { s.pair_ops(typename Sys::M{}, typename Sys::M{}); })
        {
            // one layout per distinct (bytes) state; bound the number of states used
            std::uint64_t n = nodes.size();
            std::uint64_t lim = (std::uint64_t)std::sqrt((double)g_opt.max_pairs);
            std::vector<std::uint32_t> pick;
            for (std::uint32_t i = 0; i < n && pick.size() < lim; ++i) if (!pruned_nodes.count(i)) pick.push_back(i);
            g_notes["pair_states"] += pick.size();
            g_notes["pair_states_all"] += pick.size() == n ? 1 : 0;
            std::string key;
            const double t0 = now();
            for (std::uint32_t x : pick)
                for (std::uint32_t y : pick)
                {
                    if (now() - t0 > g_opt.time_limit) { g_notes["pair_states_all"] = 0; return; }
                    auto load = [&]
                    {
                        // y goes to slot 0 first, is byte-moved to slot 1 with its liveness
                        restore(y);
                        auto my = s.model;
                        const std::string keep1(reinterpret_cast<char*>(slot(0)), g_slot_size);
                        const std::string keepl(reinterpret_cast<char*>(g_live[0]), g_slot_size);
                        const auto lc1 = g_live_count[0];
                        restore(x);
                        std::memcpy(slot(1), keep1.data(), g_slot_size);
                        std::memcpy(g_live[1], keepl.data(), g_slot_size);
                        g_live_count[1] = lc1;
                        cur = x;
                        cur_op = -1;
                        g_expect = Expect{};
                        g_diverged = false;
                        g_life_error.clear();
                        return my;
                    };
                    const int K = s.pair_op_count();
                    for (int k = 0; k < K; ++k)
                    {
                        auto my = load();
                        auto mx = s.model;
                        g_op_kind = 0;
                        g_current_op = cat_str("pair-op ", s.pair_op_name(k), " with operand state #", (long)y, " = ", s.show(my), " (this = ", s.show(mx), ")");
                        const auto allocs0 = g_allocs;
                        const auto san0 = g_san_reports;
                        bool enabled = false;
                        const Event ev = guarded([&] { enabled = s.pair_op(k, mx, my); });
                        if (ev.kind == EV_NONE && !enabled) continue;
                        ++g_pairs;
                        ++g_transitions;
                        if (ev.kind != EV_NONE) { fail(SEM | COPY | CMP | CRASH, cat_str("pair operation ended with ", ev_name(ev.kind))); continue; }
                        after(ev, allocs0, san0);
                    }
                    // the results themselves become states to explore further
                    if constexpr (requires { s.pair_assign(0); })
                        if ((g_mask & (COPY | LIFE | SEM)) != 0 && nodes.size() < n + 20000)
                            for (int k = 0; k < 3; ++k)
                            {
                                auto my = load();
                                auto mx = s.model;
                                g_op_kind = COPY;
                                g_current_op = cat_str("pair ", s.pair_assign_name(k), " with operand state #", (long)y, " = ", s.show(my), " (this = ", s.show(mx), ")");
                                const auto allocs0 = g_allocs;
                                const auto san0 = g_san_reports;
                                bool enabled = false;
                                const Event ev = guarded([&] { enabled = s.pair_assign(k); });
                                if (ev.kind == EV_NONE && !enabled) continue;
                                ++g_pairs;
                                ++g_transitions;
                                if (ev.kind != EV_NONE) { fail(SEM | COPY | CRASH, cat_str("pair operation ended with ", ev_name(ev.kind))); continue; }
                                s.model = my;
                                after(ev, allocs0, san0);
                                if (g_diverged) { ++g_pruned; continue; }
                                snapshot(key);
                                if (add(key, x, PAIR_EDGE + (std::uint32_t)k)) observe_new();
                            }
                }
        }
    }
};

// value-initialised iterators of one type compare equal and can be assigned to
template <class It>
bool value_initialised_ok(It begin)
{
    It a{}, b{};
    if (!(a == b) || a != b) return false;
    a = begin;
    return a == begin;
}
}  // namespace mc

// ---------------------------------------------------------------- process-wide overrides
#ifndef MC_NO_OVERRIDES
extern "C"
{
    void abort() noexcept
    {
        if (mc::g_armed) mc::raise_event(mc::EV_ABORT);
        _exit(134);
    }
    void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { abort(); }
    void __asan_on_error() { mc::g_san_reports = mc::g_san_reports + 1; }
    void __ubsan_on_report(void) { mc::g_san_reports = mc::g_san_reports + 1; }
    const char* __asan_default_options()
    {
        return "halt_on_error=0:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
               "handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0:"
               "print_legend=0:print_summary=0:suppress_equal_pcs=0";
    }
    const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=0"; }
}
#endif
