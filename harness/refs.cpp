// Maps whose values are references: all sequences of DEPTH operations against std::map<int, object*>.
// An entry must denote exactly the object it was bound to when it was inserted, through copies, moves, assignments and
// the relocation of neighbouring entries; nothing is ever written to an object except through a mutable reference.
#include "mc.hpp"
#include "enums.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
using namespace mc;
namespace fc = fixed_containers;
#ifndef DEPTH
#define DEPTH 4
#endif
struct Obj
{
    int v;
    friend bool operator==(const Obj&, const Obj&) = default;
};
static Obj g_obj[4];
constexpr int NO = 3, NK = 3;
static int g_written[4];

template <class K> static K key(int i);
template <> int key<int>(int i) { return i * 10 - 10; }
using E = en::Old;
template <> E key<E>(int i) { static const E a[] = {en::OLD_A, en::OLD_B, en::OLD_C}; return a[i]; }
struct Half { std::uint64_t operator()(int x) const { return (std::uint64_t)(x > 0); } };

enum { OP_TRY, OP_EMPLACE, OP_INSERT, OP_ERASE = OP_INSERT + 1, OP_ERASE_IT, OP_CLEAR, OP_COPY, OP_MOVE, OP_ASSIGN, OP_MOVE_ASSIGN, OP_SELF, OP_WRITE, OP_ERASE_IF, OP_BRACKET_N };
struct ROp { int op, k, o; };
static std::string g_hist;

template <class C, class K, class V>
struct Run
{
    using Model = std::map<int, int>;
    static constexpr bool MUT = !std::is_const_v<std::remove_reference_t<V>>;
    static std::vector<ROp> ops()
    {
        std::vector<ROp> r;
        for (int k = 0; k < NK; ++k)
        {
            for (int o = 0; o < NO; ++o)
            {
                r.push_back({OP_TRY, k, o});
                if (o == k) { r.push_back({OP_EMPLACE, k, (o + 1) % NO}); r.push_back({OP_INSERT, k, (o + 2) % NO}); }
            }
            r.push_back({OP_ERASE, k, 0});
            if (MUT) r.push_back({OP_WRITE, k, 0});
        }
        r.push_back({OP_ERASE_IT, 0, 0});
        for (int o : {OP_CLEAR, OP_COPY, OP_MOVE, OP_ASSIGN, OP_MOVE_ASSIGN, OP_SELF, OP_ERASE_IF}) r.push_back({o, 0, 0});
        return r;
    }
    static std::string name(const ROp& o)
    {
        static const char* n[] = {"try_emplace", "emplace", "insert", "erase", "erase(begin)", "clear", "copy", "move", "assign", "move-assign", "self-assign", "write", "erase_if"};
        return cat_str(" ", n[o.op], "(", o.k, ",", o.o, ")");
    }
    static C* build(std::initializer_list<std::pair<int, int>> l)
    {
        C* c = new C();
        for (auto& [k, o] : l) c->try_emplace(key<K>(k), g_obj[o]);
        return c;
    }
    static void same(const C& c, const Model& m)
    {
        MC_CHECK(c.size() == m.size() && c.empty() == m.empty(), SEM, "size");
        for (int k = 0; k < NK; ++k)
        {
            const auto it = c.find(key<K>(k));
            MC_CHECK(c.contains(key<K>(k)) == (m.count(k) != 0) && (it != c.end()) == (m.count(k) != 0), SEM, "lookup of key ", k);
            if (m.count(k))
            {
                MC_CHECK(std::addressof(it->second) == &g_obj[m.at(k)] && std::addressof((*it).second) == &g_obj[m.at(k)], SEM, "entry ", k, " denotes another object");
                MC_CHECK(std::addressof(c.at(key<K>(k))) == &g_obj[m.at(k)], SEM, "at(", k, ") denotes another object");
                MC_CHECK(it->first == key<K>(k), SEM, "key");
            }
        }
        std::size_t n = 0;
        for (auto&& [k, v] : c)
        {
            int i = -1;
            for (int j = 0; j < NK; ++j) if (k == key<K>(j)) i = j;
            MC_CHECK(i >= 0 && m.count(i) && std::addressof(v) == &g_obj[m.at(i)], SEM | ITER, "iteration");
            ++n;
        }
        MC_CHECK(n == m.size(), SEM | ITER, "iteration");
        for (int o = 0; o < 4; ++o) MC_CHECK(g_obj[o].v == o / 2 + g_written[o] * 100, SEM | COPY, "object ", o, " was written to");
    }
    static void step(C*& c, Model& m, const ROp& op)
    {
        const K k = key<K>(op.k);
        auto inserted = [&](auto& r)
        {
            const bool fresh = m.emplace(op.k, op.o).second;
            MC_CHECK(r.second == fresh && r.first->first == k && std::addressof(r.first->second) == &g_obj[m[op.k]], SEM, "insertion result");
        };
        switch (op.op)
        {
        case OP_TRY: { auto r = c->try_emplace(k, g_obj[op.o]); inserted(r); break; }
        case OP_EMPLACE: { auto r = c->emplace(k, g_obj[op.o]); inserted(r); break; }
        case OP_INSERT:
            if constexpr (MUT) { auto r = c->emplace(k, g_obj[op.o]); inserted(r); }
            else { auto r = c->insert({k, g_obj[op.o]}); inserted(r); }
            break;
        case OP_ERASE: MC_CHECK(c->erase(k) == m.erase(op.k), SEM, "erase count"); break;
        case OP_ERASE_IT:
            if (!m.empty())
            {
                int i = 0;
                for (int j = 0; j < NK; ++j) if (c->begin()->first == key<K>(j)) i = j;
                m.erase(i);
                c->erase(c->begin());
            }
            break;
        case OP_CLEAR: c->clear(); m.clear(); break;
        case OP_COPY: { C* d = new C(*c); same(*c, m); c->clear(); delete c; c = d; break; }
        case OP_MOVE: { C* d = new C(std::move(*c)); c->clear(); same(*c, {}); delete c; c = d; break; }
        case OP_ASSIGN: { C* d = build({{0, 2}, {2, 1}}); *d = *c; same(*c, m); c->clear(); delete c; c = d; break; }
        case OP_MOVE_ASSIGN: { C* d = build({{1, 0}, {2, 3}}); *d = std::move(*c); c->clear(); same(*c, {}); delete c; c = d; break; }
        case OP_SELF: { C& r = *c; *c = r; break; }
        case OP_WRITE:
            if constexpr (MUT)
                if (m.count(op.k))
                {
                    c->at(k).v += 100;
                    ++g_written[m[op.k]];
                    c->find(k)->second.v += 100;
                    ++g_written[m[op.k]];
                }
            break;
        case OP_ERASE_IF:
        {
            auto even = [](const auto& e) { return e.second.v % 2 == 0; };
            std::size_t want = 0;
            for (auto it = m.begin(); it != m.end();) if (g_obj[it->second].v % 2 == 0) { ++want; it = m.erase(it); } else ++it;
            MC_CHECK(fc::erase_if(*c, even) == want, SEM, "erase_if count");
            break;
        }
        }
        // operator== compares the referenced values
        C* d = new C();
        for (auto& [kk, o] : m) d->try_emplace(key<K>(kk), g_obj[o ^ 1]);
        bool eq = true;
        for (auto& [kk, o] : m) eq = eq && g_obj[o ^ 1].v == g_obj[o].v;
        MC_CHECK((*d == *c) == eq && (*c == *d) == eq && *c == *c, SEM | CMP, "equality compares the values referred to");
        delete d;
        same(*c, m);
    }
    static void all(const char* nm)
    {
        const auto O = ops();
        std::vector<std::size_t> idx(DEPTH, 0);
        for (;;)
        {
            g_hist = nm;
            g_hist += ":";
            for (auto i : idx) g_hist += name(O[i]);
            g_current_op = g_hist;
            const auto san0 = g_san_reports;
            const Event ev = guarded([&]
            {
                for (int o = 0; o < 4; ++o) { g_obj[o].v = o / 2; g_written[o] = 0; }
                C* c = new C();
                Model m;
                for (auto i : idx)
                {
                    step(c, m, O[i]);
                    ++g_transitions;
                }
                delete c;
            });
            if (ev.kind != EV_NONE) fail(SEM | CRASH, cat_str("ended with ", ev_name(ev.kind)));
            MC_CHECK(g_san_reports == san0, SEM | LIFE | CRASH, "memory error / undefined behaviour");
            ++g_states;
            std::size_t d = 0;
            while (d < DEPTH && ++idx[d] == O.size()) idx[d++] = 0;
            if (d == DEPTH) break;
        }
    }
};
int main(int argc, char** argv)
{
    parse_args(argc, argv);
    init_runtime();
    g_program = PROG;
    g_trace_fn = [] { return "{\"names\":[\"" + jesc(g_current_op) + "\"]}"; };
#if KIND == 0
    Run<fc::FixedMap<int, Obj&, 3>, int, Obj&>::all("FixedMap<int, T&>");
    Run<fc::FixedMap<int, const Obj&, 3>, int, const Obj&>::all("FixedMap<int, const T&>");
#elif KIND == 1
    Run<fc::FixedUnorderedMap<int, Obj&, 3, Half>, int, Obj&>::all("FixedUnorderedMap<int, T&>");
    Run<fc::FixedUnorderedMap<int, const Obj&, 3, Half>, int, const Obj&>::all("FixedUnorderedMap<int, const T&>");
#else
    Run<fc::EnumMap<E, const Obj&>, E, const Obj&>::all("EnumMap<E, const T&>");
#endif
    g_notes["enumerated"] = 1;
    finish(0);
}
