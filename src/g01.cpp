// G01: product search of the real grapheme state machine and the UAX #29 reference automaton.
#include <libunicode/grapheme_segmenter.h>

#include "graphref.hpp"
#include "mc.hpp"

using namespace unicode;
using mc::hexcp;

struct Node
{
    grapheme_segmenter_state impl;
    gref::State ref;
    int parent;
    char32_t via;
    bool reinit; // how we entered (only meaningful after a break)
};

static std::vector<Node> nodes;

static std::string key(grapheme_segmenter_state s, gref::State const& r)
{
    // The whole struct (without padding) is the key.
    __builtin_clear_padding(&s);
    std::string k(reinterpret_cast<char const*>(&s), sizeof s);
    uint32_t v = r.key();
    k.append(reinterpret_cast<char const*>(&v), 4);
    return k;
}

static std::string path(int n)
{
    std::vector<std::string> p;
    for (; n >= 0; n = nodes[size_t(n)].parent)
        p.push_back(hexcp(nodes[size_t(n)].via) + (nodes[size_t(n)].reinit ? "(init)" : ""));
    std::string r;
    for (auto it = p.rbegin(); it != p.rend(); ++it)
        r += (r.empty() ? "" : " ") + *it;
    return r;
}

static std::string clsName(gref::Cls c)
{
    static char const* g[] = { "Other", "CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "sot" };
    static char const* i[] = { "", "+Linker", "+Consonant", "+InExtend" };
    return std::string(g[c.g]) + i[c.i] + (c.ep ? "+ExtPic" : "");
}

static void fail(int n, std::u32string const& tail, bool got)
{
    std::string k = "boundary";
    for (int x = n, d = 0; x >= 0 && d < 2; x = nodes[size_t(x)].parent, ++d)
        k += "<" + clsName(gref::cls(nodes[size_t(x)].via));
    for (auto c: tail)
        k += "|" + clsName(gref::cls(c));
    mc::violation(k, "after " + path(n) + " then " + mc::hex(tail) + ": implementation says " + (got ? "break" : "no break")
                         + " before the last character, UAX #29 says the opposite");
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::extra["conformance_lines_checked_on_reference"] = gref::selfCheck();
    auto const reps = gref::alphabet(mc::opt.thorough);
    mc::extra["alphabet"] = reps.size();

    std::unordered_map<std::string, int> seen;
    auto blank = [] {
        alignas(grapheme_segmenter_state) static unsigned char mem[sizeof(grapheme_segmenter_state)];
        memset(mem, 0, sizeof mem);
        return new (mem) grapheme_segmenter_state;
    };
    auto add = [&](grapheme_segmenter_state const& s, gref::State const& r, int parent, char32_t via, bool re) {
        auto k = key(s, r);
        if (seen.count(k))
            return;
        seen.emplace(k, int(nodes.size()));
        nodes.push_back({ s, r, parent, via, re });
    };
    for (auto c: reps)
    {
        auto* s = blank();
        grapheme_process_init(c, *s);
        add(*s, gref::advance({}, gref::cls(c)), -1, c, true);
    }
    size_t const Cap = mc::opt.thorough ? 400000 : 40000;
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        if (nodes.size() > Cap)
        {
            mc::capped = true;
            mc::note("state cap reached");
            break;
        }
        for (auto c: reps)
        {
            auto n = nodes[i];
            mc::cur("grapheme_process_breakable", &n.impl, sizeof n.impl, 1, long(c));
            bool got = grapheme_process_breakable(c, n.impl);
            bool want = gref::boundary(n.ref, gref::cls(c));
            if (mc::opt.shard == 0)
                ++mc::transitions;
            auto r = gref::advance(n.ref, gref::cls(c));
            if (got != want)
            {
                fail(int(i), { c }, got);
                if (mc::enough())
                    return mc::finish();
                continue; // diverged: do not explore further below this edge
            }
            add(n.impl, r, int(i), c, false);
            if (got)
            {
                auto* s = blank();
                *s = n.impl;
                grapheme_process_init(c, *s); // the documented re-initialisation, in a used object
                add(*s, r, int(i), c, true);
            }
        }
    }
    if (mc::opt.shard == 0)
        mc::states = nodes.size();

    // Every code point in every product state, followed by every representative.
    std::vector<gref::Cls> repCls;
    for (auto c: reps)
        repCls.push_back(gref::cls(c));
    std::vector<char32_t> beyond { 0x110000, 0x110001, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
    auto const& tab = gref::table();
    size_t sweepStates = std::min<size_t>(nodes.size(), mc::opt.thorough ? 4000 : 600);
    if (sweepStates < nodes.size())
        mc::note("second sweep over the first " + std::to_string(sweepStates) + " product states (BFS order)");
    for (size_t i = 0; i < sweepStates; ++i)
    {
        if (!mc::mine(i))
            continue;
        auto const base = nodes[i];
        for (uint32_t c = 0; c < ucd::N; ++c)
        {
            auto s = base.impl;
            mc::cur("grapheme_process_breakable", &base.impl, sizeof base.impl, 1, long(c));
            bool got = grapheme_process_breakable(c, s);
            ++mc::transitions;
            if (got != gref::boundary(base.ref, tab[c]))
            {
                fail(int(i), { char32_t(c) }, got);
                if (mc::enough())
                    return mc::finish();
                continue;
            }
            auto const r = gref::advance(base.ref, tab[c]);
            for (size_t k = 0; k < reps.size(); ++k)
            {
                auto s2 = s;
                bool g2 = grapheme_process_breakable(reps[k], s2);
                if (g2 != gref::boundary(r, repCls[k]))
                {
                    fail(int(i), { char32_t(c), reps[k] }, g2);
                    if (mc::enough())
                        return mc::finish();
                }
            }
            mc::transitions += reps.size();
            ++mc::traces;
        }
        for (auto c: beyond)
        {
            auto s = base.impl;
            grapheme_process_breakable(c, s);
            for (auto q: reps)
                grapheme_process_breakable(q, s);
            grapheme_process_init(c, s);
        }
    }
    // init with every code point, then every representative twice
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 8))
            continue;
        grapheme_segmenter_state s;
        mc::cur("grapheme_process_init", &s, sizeof s, 1, long(c));
        grapheme_process_init(c, s);
        auto r = gref::advance({}, tab[c]);
        for (size_t k = 0; k < reps.size(); ++k)
        {
            auto s2 = s;
            bool g = grapheme_process_breakable(reps[k], s2);
            if (g != gref::boundary(r, repCls[k]))
            {
                mc::violation("init-then<" + clsName(tab[c]) + "|" + clsName(repCls[k]), "init " + hexcp(c) + " then " + hexcp(reps[k]));
                if (mc::enough())
                    return mc::finish();
            }
            auto r2 = gref::advance(r, repCls[k]);
            for (size_t m = 0; m < reps.size(); ++m)
            {
                auto s3 = s2;
                bool g3 = grapheme_process_breakable(reps[m], s3);
                if (g3 != gref::boundary(r2, repCls[m]))
                {
                    mc::violation("init-then<" + clsName(tab[c]) + "|" + clsName(repCls[k]) + "|" + clsName(repCls[m]),
                                  "init " + hexcp(c) + " then " + hexcp(reps[k]) + " " + hexcp(reps[m]));
                    if (mc::enough())
                        return mc::finish();
                }
            }
        }
        mc::transitions += reps.size() * (reps.size() + 1);
        ++mc::traces;
    }
    // Every pair of code points that have any segmentation property (Hangul LV/LVT by representative).
    std::vector<char32_t> special;
    for (uint32_t c = 0; c < ucd::N; ++c)
        if (tab[c].g != gref::LV && tab[c].g != gref::LVT && !(tab[c] == gref::Cls {}) && !(tab[c] == gref::Cls { gref::Other, gref::INone, false, true }))
            special.push_back(c);
    mc::extra["special_code_points_paired"] = special.size();
    for (size_t i = 0; i < special.size(); ++i)
    {
        if (!mc::mine(i))
            continue;
        grapheme_segmenter_state s;
        mc::cur("grapheme_process_init", &s, sizeof s, 1, long(special[i]));
        grapheme_process_init(special[i], s);
        auto const r = gref::advance({}, tab[special[i]]);
        for (auto c: special)
        {
            auto s2 = s;
            bool g = grapheme_process_breakable(c, s2);
            if (g != gref::boundary(r, tab[c]))
            {
                mc::violation("pair<" + clsName(tab[special[i]]) + "|" + clsName(tab[c]), "init " + hexcp(special[i]) + " then " + hexcp(c));
                if (mc::enough())
                    return mc::finish();
            }
        }
        mc::transitions += special.size();
        ++mc::traces;
    }
    for (size_t i = 0; i < nodes.size() && mc::samples.size() < 4; i += nodes.size() / 4 + 1)
        mc::sample(path(int(i)));
    return mc::finish();
}
