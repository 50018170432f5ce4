// FixedString against std::string.  -DCAP=<n> [-DPOLICY_ABORT] [-DALPHA=2]
#include "mc.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/string_literal.hpp"
#include <sstream>
using namespace mc;
namespace fc = fixed_containers;
#ifndef ALPHA
#define ALPHA 2
#endif
// the alphabet: with -DWILD the characters a signed or NUL-terminated treatment would get wrong
#ifdef WILD
constexpr char XA = '\0', XB = '\xff', XC = '\x80';
#else
constexpr char XA = 'a', XB = 'b', XC = 'c';
#endif
#ifdef POLICY_ABORT
template <std::size_t N> using CT = fc::FixedString<N>;
#else
template <std::size_t N> using CT = fc::FixedString<N, RecSeqChecking<char>>;
#endif

template <class C, class C2>
struct SysT
{
    using Sys = SysT;
    using M = std::string;
    static constexpr bool TRACKED = false;
    static constexpr bool RELOCATABLE = true;
    M model;
    std::vector<Op<Sys>> ops;
    std::vector<std::string> pats;     // all strings over the alphabet up to length 2 (plus some of length 3)
    void op(std::string name, std::function<bool(Sys&)> f) { ops.push_back(Op<Sys>{std::move(name), std::move(f)}); }
    std::string ser(const M& m) { return m; }
    M deser(const char* p, std::size_t n) { return M(p, n); }
    static std::string show(const M& m)
    {
        std::string o = "\"";
        for (char c : m)
        {
            char b[8];
            if (c >= ' ' && c < 127) o += c;
            else if (c == 0) o += "\\0";
            else { std::snprintf(b, sizeof b, "\\x%02x", (unsigned)(unsigned char)c); o += b; }
        }
        return o + "\"";
    }
    C& c() { return *reinterpret_cast<C*>(slot(0)); }
    C& d() { return *reinterpret_cast<C*>(slot(1)); }
    void construct_initial() { R((void)new (slot(0)) C()); model.clear(); }

    template <class X>
    static bool eqv(const X& x, const M& m)
    {
        if (x.size() != m.size()) return false;
        return std::memcmp(x.data(), m.data(), m.size()) == 0;
    }
    template <class X>
    void terminated(const X& x, const char* what)
    {
        MC_CHECK(x.data()[x.size()] == '\0', NULTERM | SEM, what, ": the character after the content is not NUL");
        if (std::string_view(x.data(), x.size()).find('\0') == std::string_view::npos)
            MC_CHECK(std::strlen(x.c_str()) == x.size(), NULTERM | SEM, what, ": C string length");
    }
    void observe()
    {
        const C& x = c();
        C& y = c();
        const M& m = model;
        const auto n = m.size();
        MC_CHECK(R(x.size()) == n && R(x.length()) == n, SEM, "size() is ", (long)x.size(), " expected ", (long)n);
        MC_CHECK(R(x.empty()) == (n == 0), SEM, "empty()");
        MC_CHECK(R(x.max_size()) == CAP && R(x.capacity()) == CAP && C::static_max_size() == CAP, SEM, "max_size()");
        MC_CHECK(R(is_full(x)) == (n >= CAP), SEM, "is_full()");
        if (x.size() != n) { g_diverged = true; return; }
        terminated(x, "state");
        MC_CHECK(x.data() == y.data() && x.c_str() == x.data(), SEM, "data()/c_str()");
        MC_CHECK(std::string_view(x) == m, SEM, "content is ", show(std::string(std::string_view(x))), " expected ", show(m));
        if (std::string_view(x) != m) { g_diverged = true; return; }
        {
            const std::string_view v = R(std::string_view(x));
            MC_CHECK(v.data() == x.data() && v.size() == n, SEM, "string_view conversion");
        }
        for (std::size_t i = 0; i < n; ++i)
        {
            MC_CHECK(R(x[i]) == m[i] && R(y[i]) == m[i] && R(x.at(i)) == m[i] && R(y.at(i)) == m[i], SEM, "element ", (long)i);
            MC_CHECK(&y[i] == y.data() + i && &x.at(i) == x.data() + i, SEM, "element address ", (long)i);
        }
        if (n)
        {
            MC_CHECK(R(x.front()) == m.front() && R(y.front()) == m.front(), SEM, "front()");
            MC_CHECK(R(x.back()) == m.back() && R(y.back()) == m.back(), SEM, "back()");
        }
        const std::string rev(m.rbegin(), m.rend());
        MC_CHECK(std::string(x.begin(), x.end()) == m && std::string(y.begin(), y.end()) == m && std::string(x.cbegin(), x.cend()) == m, SEM | ITER, "iteration");
        MC_CHECK(std::string(x.rbegin(), x.rend()) == rev && std::string(y.rbegin(), y.rend()) == rev && std::string(x.crbegin(), x.crend()) == rev, SEM | ITER, "reverse iteration");
        MC_CHECK(x.end() - x.begin() == (long)n && y.end() - y.begin() == (long)n, SEM | ITER, "distance");
        // searches
        std::vector<std::size_t> poss;
        for (std::size_t p = 0; p <= n + 1; ++p) poss.push_back(p);
        poss.push_back(C::npos);
#define SEARCH(F, DEF)                                                                                                                  \
        for (const auto& s : pats)                                                                                                      \
        {                                                                                                                               \
            const C2 f{std::string_view(s)};                                                                                            \
            const std::string_view sv = s;                                                                                              \
            MC_CHECK(R(x.F(f)) == m.F(s), SEM, #F "(FixedString ", show(s), ")");                                                       \
            MC_CHECK(R(x.F(s.c_str())) == m.F(s.c_str()), SEM, #F "(const char* ", show(s), ")");                                       \
            MC_CHECK(R(x.F(sv)) == m.F(sv), SEM, #F "(view ", show(s), ")");                                                            \
            for (std::size_t p : poss)                                                                                                  \
            {                                                                                                                           \
                MC_CHECK(R(x.F(f, p)) == m.F(s, p), SEM, #F "(FixedString ", show(s), ", ", (long)p, ")");                              \
                MC_CHECK(R(x.F(s.c_str(), p)) == m.F(s.c_str(), p), SEM, #F "(const char* ", show(s), ", ", (long)p, ")");              \
                MC_CHECK(R(x.F(sv, p)) == m.F(sv, p), SEM, #F "(view ", show(s), ", ", (long)p, ")");                                   \
                for (std::size_t k = 0; k <= s.size(); ++k)                                                                             \
                    MC_CHECK(R(x.F(s.data(), p, k)) == m.F(s.data(), p, k), SEM, #F "(ptr ", show(s), ", ", (long)p, ", ", (long)k, ")"); \
            }                                                                                                                           \
        }                                                                                                                               \
        for (char ch : {'a', 'b', '\0', 'z', '\xff'})                                                                                           \
        {                                                                                                                               \
            MC_CHECK(R(x.F(ch)) == m.F(ch), SEM, #F "(char)");                                                                          \
            for (std::size_t p : poss) MC_CHECK(R(x.F(ch, p)) == m.F(ch, p), SEM, #F "(char, ", (long)p, ")");                          \
        }
        SEARCH(find, 0)
        SEARCH(rfind, 0)
        SEARCH(find_first_of, 0)
        SEARCH(find_first_not_of, 0)
        SEARCH(find_last_of, 0)
        SEARCH(find_last_not_of, 0)
        for (const auto& s : pats)
        {
            const std::string_view sv = s;
            MC_CHECK(R(x.starts_with(sv)) == m.starts_with(sv) && R(x.starts_with(s.c_str())) == m.starts_with(s.c_str()), SEM, "starts_with ", show(s));
            MC_CHECK(R(x.ends_with(sv)) == m.ends_with(sv) && R(x.ends_with(s.c_str())) == m.ends_with(s.c_str()), SEM, "ends_with ", show(s));
            auto sg = [](int i) { return (i > 0) - (i < 0); };
            MC_CHECK(sg(R(x.compare(sv))) == sg(m.compare(sv)), SEM | CMP, "compare ", show(s));
            cmp(x, s);
        }
        for (char ch : {'a', 'b', '\0', 'z', '\xff'}) MC_CHECK(R(x.starts_with(ch)) == m.starts_with(ch) && R(x.ends_with(ch)) == m.ends_with(ch), SEM, "starts/ends_with(char)");
        // comparisons with near-by strings
        cmp(x, m);
        for (char ch : {'a', 'b', '\0', '\xff', '\x80'})
        {
            if (n < CAP + 2) cmp(x, m + ch);
            for (std::size_t i = 0; i < n; ++i) { M w = m; w[i] = ch; cmp(x, w); }
        }
        if (n) cmp(x, m.substr(0, n - 1));
        for (std::size_t p = 0; p <= n; ++p)
        {
            MC_CHECK(R(x.substr(p)) == std::string_view(m).substr(p), SEM, "substr(", (long)p, ")");
            for (std::size_t k : {std::size_t{0}, std::size_t{1}, std::size_t{2}, n, n + 5, C::npos})
            {
                const auto v = R(x.substr(p, k));
                MC_CHECK(v == std::string_view(m).substr(p, k) && v.data() == x.data() + p, SEM, "substr(", (long)p, ",", (long)k, ")");
            }
        }
        {
            std::ostringstream os;
            os << x;
            MC_CHECK(os.str() == m, SEM, "operator<<");
        }
        // relocation
        MC_CHECK(std::is_trivially_copyable_v<C>, RELOC, "FixedString is not trivially copyable");
        std::string keep(reinterpret_cast<char*>(slot(0)), g_slot_size);
        std::memcpy(slot(1), slot(0), g_slot_size);
        std::memset(slot(0), 0x5A, g_slot_size);
        const bool ok = eqv(d(), m) && d().c_str()[n] == '\0';
        std::memcpy(slot(0), keep.data(), g_slot_size);
        MC_CHECK(ok, RELOC, "byte-relocated string differs");
        MC_CHECK(R(d() == x), RELOC | CMP, "byte-relocated string != original");
        wipe_slot(1);
    }
    void cmp(const C& x, const M& w)
    {
        const M& m = model;
        const std::string_view sv = w;
        MC_CHECK((R(x == sv)) == (m == sv) && (R(sv == x)) == (m == sv) && (R(x != sv)) == (m != sv), CMP | SEM, "== with view ", show(w));
        MC_CHECK((R(x <=> sv)) == (std::string_view(m) <=> sv), CMP | SEM, "<=> with view ", show(w));
        MC_CHECK((R(x < sv)) == (m < sv) && (R(x > sv)) == (m > sv) && (R(x <= sv)) == (m <= sv) && (R(x >= sv)) == (m >= sv), CMP | SEM, "ordering with view ", show(w));
        const char* p = w.c_str();
        MC_CHECK((R(x == p)) == (m == p) && (R(x != p)) == (m != p), CMP | SEM, "== with const char* ", show(w));
        MC_CHECK((R(x < p)) == (m < p) && (R(x > p)) == (m > p) && (R(x <= p)) == (m <= p) && (R(x >= p)) == (m >= p), CMP | SEM, "ordering with const char* ", show(w));
        if (w.size() <= CAP + 2)
        {
            const C2 f{sv};
            MC_CHECK((R(x == f)) == (m == w) && (R(f == x)) == (m == w) && (R(x != f)) == (m != w), CMP | SEM, "== with another capacity ", show(w));
            MC_CHECK((R(x <=> f)) == (std::string_view(m) <=> sv) && (R(x < f)) == (m < w) && (R(f < x)) == (w < m) && (R(x >= f)) == (m >= w), CMP | SEM, "<=> with another capacity ", show(w));
        }
    }
    // An operation that makes the content `w` (or exceeds the capacity)
    bool over(const M& w)
    {
        // (the figure may or may not count the terminator, and may be the first length that does not fit)
        if (w.size() > CAP) { expect_err(EV_LENGTH, (long)w.size() + 1); g_expect.a_min = CAP + 1; return true; }
        return false;
    }
    void adopt(const M& w) { if (!g_expect.err) model = w; }
    auto at_(long i) { return c().begin() + i; }
    template <class It>
    void pos_is(It it, long p, const char* what)
    {
        if (g_expect.err) return;
        MC_CHECK(it == c().begin() + p, SEM, what, ": returned position");
    }
    void build()
    {
        const std::string al = std::string{XA, XB, XC}.substr(0, ALPHA);
        pats = {""};
        for (char x : al) pats.push_back(std::string(1, x));
        for (char x : al) for (char y : al) pats.push_back(std::string{x, y});
        pats.push_back(std::string{XA, XB, XA});
#ifdef WILD
        pats.push_back("a");
        pats.push_back(std::string{XB, XA, XB});
#endif
        pats.push_back(std::string{XB, '\0'});
        std::sort(pats.begin(), pats.end());
        pats.erase(std::unique(pats.begin(), pats.end()), pats.end());
        for (char ch : al)
        {
            op(cat_str("push_back(", show(std::string(1, ch)), ")"), [=](Sys& s) { M w = s.model + ch; s.over(w); R(s.c().push_back(ch)); s.adopt(w); return true; });
            op(cat_str("+= char ", show(std::string(1, ch))), [=](Sys& s) { M w = s.model + ch; s.over(w); C& r = R(s.c() += ch); s.adopt(w); MC_CHECK(&r == &s.c(), SEM, "+= returns *this"); return true; });
            for (std::size_t i = 0; i < CAP; ++i)
            {
                op(cat_str("[", (long)i, "]=", show(std::string(1, ch))), [=](Sys& s) { if (i >= s.model.size()) return false; R(s.c()[i]) = ch; s.model[i] = ch; return true; });
                op(cat_str("at(", (long)i, ")=", show(std::string(1, ch))), [=](Sys& s) { if (i >= s.model.size()) return false; R(s.c().at(i)) = ch; s.model[i] = ch; return true; });
            }
            op(cat_str("front()=", show(std::string(1, ch))), [=](Sys& s) { if (s.model.empty()) expect_err(EV_EMPTY); R(s.c().front()) = ch; s.model[0] = ch; return true; });
            op(cat_str("back()=", show(std::string(1, ch))), [=](Sys& s) { if (s.model.empty()) expect_err(EV_EMPTY); R(s.c().back()) = ch; s.model.back() = ch; return true; });
            for (std::size_t k = 0; k <= CAP + 2; ++k)
            {
                op(cat_str("assign(", (long)k, ",", show(std::string(1, ch)), ")"), [=](Sys& s) { M w(k, ch); s.over(w); C& r = R(s.c().assign(k, ch)); s.adopt(w); MC_CHECK(&r == &s.c(), SEM, "assign returns *this"); return true; });
                op(cat_str("resize(", (long)k, ",", show(std::string(1, ch)), ")"), [=](Sys& s) { M w = s.model; w.resize(k, ch); s.over(w); R(s.c().resize(k, ch)); s.adopt(w); return true; });
                op(cat_str("construct(", (long)k, ",", show(std::string(1, ch)), ")"), [=](Sys& s) { M w(k, ch); s.over(w); wipe_slot(0); R((void)new (slot(0)) C(k, ch)); s.adopt(w); return true; });
            }
            for (long p = 0; p <= (long)CAP; ++p)
                op(cat_str("insert(", p, ",", show(std::string(1, ch)), ")"), [=](Sys& s)
                {
                    if (p > (long)s.model.size()) return false;
                    M w = s.model;
                    w.insert(w.begin() + p, ch);
                    s.over(w);
                    auto it = R(s.c().insert(s.at_(p), ch));
                    s.adopt(w);
                    s.pos_is(it, p, "insert(char)");
                    return true;
                });
        }
        for (std::size_t k = 0; k <= CAP + 2; ++k)
        {
            op(cat_str("resize(", (long)k, ")"), [=](Sys& s) { M w = s.model; w.resize(k); s.over(w); R(s.c().resize(k)); s.adopt(w); return true; });
            op(cat_str("reserve(", (long)k, ")"), [=](Sys& s) { if (k > CAP) expect_err(EV_LENGTH, (long)k); R(s.c().reserve(k)); return true; });
            op(cat_str("at(", (long)k, ") beyond"), [=](Sys& s) { if (k < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(s.c().at(k)); return true; });
            op(cat_str("at(", (long)k, ") const beyond"), [=](Sys& s) { if (k < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(std::as_const(s.c()).at(k)); return true; });
            op(cat_str("[", (long)k, "] beyond"), [=](Sys& s) { if (k < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(s.c()[k]); return true; });
            op(cat_str("[", (long)k, "] const beyond"), [=](Sys& s) { if (k < s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(std::as_const(s.c())[k]); return true; });
            op(cat_str("substr(", (long)k, ") beyond"), [=](Sys& s) { if (k <= s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(std::as_const(s.c()).substr(k)); return true; });
            op(cat_str("substr(", (long)k, ",1) beyond"), [=](Sys& s) { if (k <= s.model.size()) return false; expect_err(EV_OUT_OF_RANGE, (long)k, (long)s.model.size()); (void)R(std::as_const(s.c()).substr(k, 1)); return true; });
        }
        op("front() const on empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).front()); return true; });
        op("back() const on empty", [](Sys& s) { if (!s.model.empty()) return false; expect_err(EV_EMPTY); (void)R(std::as_const(s.c()).back()); return true; });
        op("pop_back()", [](Sys& s) { if (s.model.empty()) expect_err(EV_EMPTY); R(s.c().pop_back()); s.model.pop_back(); return true; });
        op("clear()", [](Sys& s) { R(s.c().clear()); s.model.clear(); return true; });
        std::vector<std::string> ins = pats;
        ins.push_back(std::string(CAP, XB));
        ins.push_back(std::string(CAP + 1, XA));
        ins.push_back(std::string(CAP + 2, XA));
        std::sort(ins.begin(), ins.end());
        ins.erase(std::unique(ins.begin(), ins.end()), ins.end());
        for (const auto& t : ins)
        {
            const std::string nm = show(t);
            auto ii = [](const std::string* q, int* buf) { for (std::size_t i = 0; i < q->size(); ++i) buf[i] = (*q)[i]; return std::pair(InIt<char>{buf}, InIt<char>{buf + q->size()}); };
            const std::string* tp = new std::string(t);
            op("assign(view " + nm + ")", [=](Sys& s) { s.over(*tp); C& r = R(s.c().assign(std::string_view(*tp))); s.adopt(*tp); MC_CHECK(&r == &s.c(), SEM, "assign returns *this"); return true; });
            op("assign(ptrs " + nm + ")", [=](Sys& s) { s.over(*tp); R((void)s.c().assign(tp->data(), tp->data() + tp->size())); s.adopt(*tp); return true; });
            op("assign(input it " + nm + ")", [=](Sys& s) { s.over(*tp); int b[CAP + 8]; auto [f, l] = ii(tp, b); R((void)s.c().assign(f, l)); s.adopt(*tp); return true; });
            op("append(view " + nm + ")", [=](Sys& s) { M w = s.model + *tp; s.over(w); C& r = R(s.c().append(std::string_view(*tp))); s.adopt(w); MC_CHECK(&r == &s.c(), SEM, "append returns *this"); return true; });
            op("append(ptrs " + nm + ")", [=](Sys& s) { M w = s.model + *tp; s.over(w); R((void)s.c().append(tp->data(), tp->data() + tp->size())); s.adopt(w); return true; });
            op("append(input it " + nm + ")", [=](Sys& s) { M w = s.model + *tp; s.over(w); int b[CAP + 8]; auto [f, l] = ii(tp, b); R((void)s.c().append(f, l)); s.adopt(w); return true; });
            op("append(c_str " + nm + ")", [=](Sys& s) { M w = s.model + tp->c_str(); s.over(w); R((void)s.c().append(tp->c_str())); s.adopt(w); return true; });
            op("+= view " + nm, [=](Sys& s) { M w = s.model + *tp; s.over(w); C& r = R(s.c() += std::string_view(*tp)); s.adopt(w); MC_CHECK(&r == &s.c(), SEM, "+= returns *this"); return true; });
            op("+= c_str " + nm, [=](Sys& s) { M w = s.model + tp->c_str(); s.over(w); R((void)(s.c() += tp->c_str())); s.adopt(w); return true; });
            op("construct(view " + nm + ")", [=](Sys& s) { s.over(*tp); wipe_slot(0); R((void)new (slot(0)) C(std::string_view(*tp))); s.adopt(*tp); return true; });
            op("construct(c_str " + nm + ")", [=](Sys& s) { M w = tp->c_str(); s.over(w); wipe_slot(0); R((void)new (slot(0)) C(tp->c_str())); s.adopt(w); return true; });
            op("= view " + nm, [=](Sys& s) { s.over(*tp); R((void)(s.c() = std::string_view(*tp))); s.adopt(*tp); return true; });
            for (long p = 0; p <= (long)CAP; ++p)
            {
                auto want = [=](Sys& s) { M w = s.model; w.insert((std::size_t)p, *tp); return w; };
                op(cat_str("insert(", p, ", view ", nm, ")"), [=](Sys& s) { if (p > (long)s.model.size()) return false; M w = want(s); s.over(w); auto it = R(s.c().insert(s.at_(p), std::string_view(*tp))); s.adopt(w); s.pos_is(it, p, "insert(view)"); return true; });
                op(cat_str("insert(", p, ", ptrs ", nm, ")"), [=](Sys& s) { if (p > (long)s.model.size()) return false; M w = want(s); s.over(w); auto it = R(s.c().insert(s.at_(p), tp->data(), tp->data() + tp->size())); s.adopt(w); s.pos_is(it, p, "insert(ptrs)"); return true; });
                op(cat_str("insert(", p, ", input it ", nm, ")"), [=](Sys& s) { if (p > (long)s.model.size()) return false; M w = want(s); s.over(w); int b[CAP + 8]; auto [f, l] = ii(tp, b); auto it = R(s.c().insert(s.at_(p), f, l)); s.adopt(w); s.pos_is(it, p, "insert(input it)"); return true; });
            }
        }
        op("assign({a,b})", [](Sys& s) { M w{XA, XB}; s.over(w); R((void)s.c().assign({XA, XB})); s.adopt(w); return true; });
        op("append({b,a})", [](Sys& s) { M w = s.model + M{XB, XA}; s.over(w); R((void)s.c().append({XB, XA})); s.adopt(w); return true; });
        op("+= {b,a}", [](Sys& s) { M w = s.model + M{XB, XA}; s.over(w); R((void)(s.c() += {XB, XA})); s.adopt(w); return true; });
        op("construct {b,a}", [](Sys& s) { M w{XB, XA}; s.over(w); wipe_slot(0); R((void)new (slot(0)) C{XB, XA}); s.adopt(w); return true; });
        for (long p = 0; p <= (long)CAP; ++p)
        {
            op(cat_str("insert(", p, ",{a,b})"), [=](Sys& s) { if (p > (long)s.model.size()) return false; M w = s.model; w.insert((std::size_t)p, M{XA, XB}); s.over(w); auto it = R(s.c().insert(s.at_(p), {XA, XB})); s.adopt(w); s.pos_is(it, p, "insert(ilist)"); return true; });
            op(cat_str("erase(", p, ")"), [=](Sys& s) { if (p > (long)s.model.size()) return false; if (p == (long)s.model.size()) { expect_err(EV_INVALID); (void)R(s.c().erase(s.at_(p))); return true; } s.model.erase((std::size_t)p, 1); auto it = R(s.c().erase(s.at_(p))); s.pos_is(it, p, "erase"); return true; });
            for (long q = p; q <= (long)CAP; ++q)
            {
                op(cat_str("erase(", p, ",", q, ")"), [=](Sys& s) { if (q > (long)s.model.size()) return false; auto it = R(s.c().erase(s.at_(p), s.at_(q))); s.model.erase((std::size_t)p, (std::size_t)(q - p)); s.pos_is(it, p, "erase(range)"); return true; });
                // parts of the string itself as input
                op(cat_str("append(own [", p, ",", q, "))"), [=](Sys& s) { if (q > (long)s.model.size()) return false; M w = s.model + s.model.substr((std::size_t)p, (std::size_t)(q - p)); s.over(w); R((void)s.c().append(s.c().substr((std::size_t)p, (std::size_t)(q - p)))); s.adopt(w); return true; });
                op(cat_str("assign(own [", p, ",", q, "))"), [=](Sys& s) { if (q > (long)s.model.size()) return false; M w = s.model.substr((std::size_t)p, (std::size_t)(q - p)); R((void)s.c().assign(s.c().substr((std::size_t)p, (std::size_t)(q - p)))); s.adopt(w); return true; });
                for (long r = 0; r <= (long)CAP; ++r)
                {
                    op(cat_str("insert(", r, ", own [", p, ",", q, "))"), [=](Sys& s) { if (q > (long)s.model.size() || r > (long)s.model.size()) return false; M w = s.model; w.insert((std::size_t)r, s.model.substr((std::size_t)p, (std::size_t)(q - p))); s.over(w); auto it = R(s.c().insert(s.at_(r), s.c().substr((std::size_t)p, (std::size_t)(q - p)))); s.adopt(w); s.pos_is(it, r, "insert(own)"); return true; });
                    op(cat_str("insert(", r, ", own iterators [", p, ",", q, "))"), [=](Sys& s) { if (q > (long)s.model.size() || r > (long)s.model.size()) return false; M w = s.model; w.insert((std::size_t)r, s.model.substr((std::size_t)p, (std::size_t)(q - p))); s.over(w); auto it = R(s.c().insert(s.at_(r), s.at_(p), s.at_(q))); s.adopt(w); s.pos_is(it, r, "insert(own iterators)"); return true; });
                }
            }
        }
        // streams
        for (const char* in : {"", "  ", "a", " a", "ab ", " ab b", "aba", "aba b", "abab", "ababa", "  ababa ", "a\nb", "ab\tb"})
          for (long width : {0L, 1L, 2L, 3L, 7L})
            op(cat_str("istream >> of width ", width, " from ") + show(in), [=](Sys& s)
            {
                std::istringstream a(in), b(in);
                a.width(width);
                b.width(width);
                M w = s.model;
                a >> w;
                s.over(w);
                b >> s.c();
                s.adopt(w);
                if (g_expect.err) return true;
                MC_CHECK(a.rdstate() == b.rdstate(), SEM, "stream state after >> is ", (long)b.rdstate(), " expected ", (long)a.rdstate());
                MC_CHECK(a.width() == b.width(), SEM, "field width after >> is ", (long)b.width(), " expected ", (long)a.width());
                std::string ra, rb;
                a.clear();
                b.clear();
                std::getline(a, ra);
                std::getline(b, rb);
                MC_CHECK(ra == rb, SEM, "rest of the stream after >> is ", show(rb), " expected ", show(ra));
                return true;
            });
        copies();
    }
    void poke(C& x, M m, const char* what)
    {
        MC_CHECK(eqv(x, m), COPY | SEM, what, ": content");
        terminated(x, what);
        while (m.size() < CAP) { R(x.push_back(XA)); m.push_back(XA); }
        MC_CHECK(eqv(x, m), COPY | SEM, what, ": after filling");
        terminated(x, what);
        R(x.clear());
        MC_CHECK(x.empty(), COPY | SEM, what, ": after clear");
        terminated(x, what);
    }
    void copies()
    {
        op("copy-construct, use the copy", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::as_const(s.c())));
            MC_CHECK(R(s.c() == s.d()), COPY | CMP, "copy != original");
            s.poke(s.d(), s.model, "copy");
            MC_CHECK(eqv(s.c(), s.model), COPY | SEM, "using the copy changed the source");
            wipe_slot(1);
            return true;
        });
        op("move-construct there, copy back", [](Sys& s)
        {
            R((void)new (slot(1)) C(std::move(s.c())));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "move construction lost content");
            R(s.c().clear());
            s.poke(s.c(), "", "moved-from");
            R((void)(s.c() = s.d()));
            MC_CHECK(eqv(s.d(), s.model), COPY | SEM, "copy assignment changed the source");
            wipe_slot(1);
            return true;
        });
        op("self-assign", [](Sys& s) { C& a = s.c(); R((void)(a = s.c())); return true; });
        op("self-move-assign", [](Sys& s) { C& a = s.c(); R((void)(a = std::move(s.c()))); return true; });
        for (const std::string& t : {std::string(), std::string{XB}, std::string{XA, XB}})
        {
            op(cat_str("copy-assign from ", show(t)), [=](Sys& s) { M w = t; if (w.size() > CAP) return false; const C o{std::string_view(t)}; R((void)(s.c() = o)); s.model = w; MC_CHECK(eqv(o, w), COPY | SEM, "source changed"); return true; });
            op(cat_str("swap with ", show(t)), [=](Sys& s) { M w = t; if (w.size() > CAP) return false; C o{std::string_view(t)}; using std::swap; R(swap(s.c(), o)); MC_CHECK(eqv(o, s.model), COPY | SEM, "swap"); s.terminated(o, "swap"); s.model = w; return true; });
        }
    }
    const char* pair_assign_name(int k) { static const char* n[] = {"copy-assign", "move-assign", "swap"}; return n[k]; }
    // leaves the result in slot 0 (its model is that of the operand), slot 1 destroyed
    bool pair_assign(int k)
    {
        if (k == 0)
        {
            if constexpr (std::is_copy_assignable_v<C>) R((void)(c() = std::as_const(d())));
            else return false;
        }
        else if (k == 1) R((void)(c() = std::move(d())));
        else { using std::swap; R(swap(c(), d())); }
        wipe_slot(1);
        return true;
    }
    bool pair_ops(const M&, const M&) { return true; }
    int pair_op_count() { return 3; }
    const char* pair_op_name(int k) { static const char* n[] = {"compare", "copy-assign", "swap"}; return n[k]; }
    bool pair_op(int k, const M& mx, const M& my)
    {
        if (k == 0)
        {
            const C& x = c();
            const C& y = d();
            MC_CHECK((R(x == y)) == (mx == my) && (R(x != y)) == (mx != my), CMP, "==");
            MC_CHECK((R(x <=> y)) == (std::string_view(mx) <=> std::string_view(my)), CMP, "<=>");
            MC_CHECK((R(x < y)) == (mx < my) && (R(x > y)) == (mx > my) && (R(x <= y)) == (mx <= my) && (R(x >= y)) == (mx >= my), CMP, "ordering");
            return true;
        }
        if ((g_mask & COPY) == 0) return false;
        if (k == 1) { R((void)(c() = std::as_const(d()))); MC_CHECK(eqv(c(), my) && eqv(d(), my), COPY, "copy-assign"); terminated(c(), "copy-assign"); }
        else { using std::swap; R(swap(c(), d())); MC_CHECK(eqv(c(), my) && eqv(d(), mx), COPY, "swap"); terminated(c(), "swap"); terminated(d(), "swap"); }
        wipe_slot(1);
        return true;
    }
};

void literals()
{
    // every literal of length 0..6 over the alphabet via make_fixed_string / StringLiteral
#define LIT(L)                                                                                                           \
    {                                                                                                                    \
        constexpr fc::StringLiteral s = L;                                                                               \
        const std::string_view w(L, sizeof(L) - 1);                                                                      \
        MC_CHECK(s.size() == w.size() && s.as_view() == w && std::string_view(s) == w, SEM, "StringLiteral content");    \
        MC_CHECK(s.c_str()[s.size()] == 0 && (const char*)s == s.c_str(), NULTERM | SEM, "StringLiteral termination");   \
        auto f = fc::make_fixed_string(L);                                                                               \
        MC_CHECK(std::string_view(f) == w && f.max_size() == w.size() && f.c_str()[f.size()] == 0 && is_full(f), SEM | NULTERM, "make_fixed_string"); \
        ++g_transitions;                                                                                                 \
    }
    LIT("") LIT("a") LIT("ab") LIT("abc") LIT("a\0b") LIT("hello world") LIT("\0")
    constexpr fc::StringLiteral e;
    MC_CHECK(e.size() == 0 && e.c_str()[0] == 0 && e.as_view().empty(), SEM | NULTERM, "default StringLiteral");
}

int main(int argc, char** argv)
{
    using C = CT<CAP>;
    using C2 = CT<CAP + 2 >= 3 ? CAP + 2 : 3>;
    parse_args(argc, argv);
    init_runtime();
    init_slots(sizeof(C));
#ifdef POLICY_ABORT
    g_abort_policy = true;
#endif
    g_program = PROG;
    literals();
    using Sys = SysT<C, C2>;
    Sys s;
    s.build();
    Explorer<Sys> ex(s);
    ex.run();
    finish(0);
}
