// Reference automaton for UAX #29 extended grapheme clusters (GB1..GB999, Unicode 15.1),
// written from the rules; its input is a class tuple of independently parsed UCD values.
#pragma once
#include "ucdref.hpp"

namespace gref
{
enum G : uint8_t { Other, CR, LF, Control, Extend, ZWJ, RI, Prepend, SpacingMark, L, V, T, LV, LVT, Sot };
enum I : uint8_t { INone, ILinker, IConsonant, IExtend };
struct Cls
{
    G g = Other;
    I i = INone;
    bool ep = false;
    bool ascii = false;
    bool operator<(Cls const& o) const { return std::tuple(g, i, ep, ascii) < std::tuple(o.g, o.i, o.ep, o.ascii); }
    bool operator==(Cls const& o) const = default;
};
inline G gOf(std::string const& s)
{
    static std::map<std::string, G> m { { "Other", Other },     { "CR", CR },           { "LF", LF },
                                        { "Control", Control }, { "Extend", Extend },   { "ZWJ", ZWJ },
                                        { "Regional_Indicator", RI }, { "Prepend", Prepend },
                                        { "SpacingMark", SpacingMark }, { "L", L }, { "V", V }, { "T", T },
                                        { "LV", LV }, { "LVT", LVT } };
    return m.at(s);
}
inline std::vector<Cls> const& table()
{
    static std::vector<Cls> t = [] {
        std::vector<Cls> r(ucd::N);
        std::vector<G> gm;
        for (auto& n: ucd::gcb().names)
            gm.push_back(gOf(n));
        std::vector<I> im;
        for (auto& n: ucd::incb().names)
            im.push_back(n == "None" ? INone : n == "Linker" ? ILinker : n == "Consonant" ? IConsonant : IExtend);
        auto const& ep = ucd::emoji().at("Extended_Pictographic");
        for (uint32_t c = 0; c < ucd::N; ++c)
            r[c] = { gm[ucd::gcb().v[c]], im[ucd::incb().v[c]], ep[c], c < 128 };
        return r;
    }();
    return t;
}
inline Cls cls(char32_t c) { return c < ucd::N ? table()[c] : Cls {}; }

struct State
{
    G prev = Sot;
    uint8_t pict = 0;  // 1: ... ExtPic Extend*   2: ... ExtPic Extend* ZWJ
    uint8_t indic = 0; // 1: Consonant [Extend Linker]* without Linker, 2: with at least one Linker
    bool oddRI = false;
    bool operator==(State const&) const = default;
    uint32_t key() const { return prev | pict << 8 | indic << 12 | oddRI << 16; }
};

/// Whether there is a boundary between the text so far and the next character.
inline bool boundary(State const& s, Cls const& n)
{
    if (s.prev == Sot)
        return true; // GB1
    auto const a = s.prev, b = n.g;
    if (a == CR && b == LF) return false;                                   // GB3
    if (a == Control || a == CR || a == LF) return true;                    // GB4
    if (b == Control || b == CR || b == LF) return true;                    // GB5
    if (a == L && (b == L || b == V || b == LV || b == LVT)) return false;  // GB6
    if ((a == LV || a == V) && (b == V || b == T)) return false;            // GB7
    if ((a == LVT || a == T) && b == T) return false;                       // GB8
    if (b == Extend || b == ZWJ) return false;                              // GB9
    if (b == SpacingMark) return false;                                     // GB9a
    if (a == Prepend) return false;                                         // GB9b
    if (s.indic == 2 && n.i == IConsonant) return false;                    // GB9c
    if (s.pict == 2 && n.ep) return false;                                  // GB11
    if (a == RI && b == RI && s.oddRI) return false;                        // GB12, GB13
    return true;                                                            // GB999
}
inline State advance(State const& s, Cls const& n)
{
    State r;
    r.prev = n.g;
    r.pict = n.ep ? 1 : (s.pict == 1 && n.g == Extend) ? 1 : (s.pict == 1 && n.g == ZWJ) ? 2 : 0;
    r.indic = n.i == IConsonant ? 1 : s.indic == 0 ? 0 : n.i == ILinker ? 2 : n.i == IExtend ? s.indic : 0;
    r.oddRI = n.g == RI ? !(s.prev == RI && s.oddRI) : false;
    return r;
}
/// Cluster start offsets (always contains 0 for non-empty text).
inline std::vector<size_t> boundaries(std::u32string_view t)
{
    std::vector<size_t> r;
    State s;
    for (size_t i = 0; i < t.size(); ++i)
    {
        auto c = cls(t[i]);
        if (boundary(s, c))
            r.push_back(i);
        s = advance(s, c);
    }
    return r;
}
/// Validates the reference against GraphemeBreakTest.txt; returns the number of test lines.
inline size_t selfCheck()
{
    size_t n = 0;
    ucd::lines("auxiliary/GraphemeBreakTest.txt", [&](auto const& f) {
        std::u32string t;
        std::vector<size_t> want;
        for (auto& w: ucd::split(f[0], ' '))
        {
            if (w == "\xC3\xB7")
                want.push_back(t.size());
            else if (w == "\xC3\x97" || w.empty())
                ;
            else
                t += char32_t(strtoul(w.c_str(), nullptr, 16));
        }
        want.pop_back();
        if (boundaries(t) != want)
        {
            fprintf(stderr, "reference disagrees with GraphemeBreakTest: %s\n", f[0].c_str());
            exit(3);
        }
        ++n;
    });
    return n;
}
/// One (first and last) representative per class tuple, simplest (ASCII) first.
inline std::vector<char32_t> alphabet(bool both)
{
    std::map<Cls, std::pair<char32_t, char32_t>> m;
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        auto k = cls(c);
        auto it = m.find(k);
        if (it == m.end())
            m[k] = { c, c };
        else
            it->second.second = c;
    }
    std::vector<char32_t> r;
    for (auto& [k, v]: m)
        r.push_back(v.first);
    if (both)
        for (auto& [k, v]: m)
            if (v.second != v.first)
                r.push_back(v.second);
    return r;
}
} // namespace gref
