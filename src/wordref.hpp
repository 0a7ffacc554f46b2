// Reference for UAX #29 word boundaries (WB1..WB999, Unicode 15.1): a direct reading of the rules over
// whole texts, and an automaton with one class of look-ahead; the two are compared with each other.
#pragma once
#include "mc.hpp"
#include "ucdref.hpp"

namespace wref
{
enum W : uint8_t { Other, CR, LF, Newline, Extend, ZWJ, Format, RI, Katakana, Hebrew, ALetter, SQ, DQ, MidNumLet, MidLetter, MidNum, Numeric, ExtendNumLet, WSeg, End };
struct Cls
{
    W w = Other;
    bool ep = false;
    bool operator<(Cls const& o) const { return std::tuple(w, ep) < std::tuple(o.w, o.ep); }
    bool operator==(Cls const&) const = default;
};
inline W wOf(std::string const& s)
{
    static std::map<std::string, W> m { { "Other", Other }, { "CR", CR }, { "LF", LF }, { "Newline", Newline }, { "Extend", Extend }, { "ZWJ", ZWJ },
                                        { "Format", Format }, { "Regional_Indicator", RI }, { "Katakana", Katakana }, { "Hebrew_Letter", Hebrew },
                                        { "ALetter", ALetter }, { "Single_Quote", SQ }, { "Double_Quote", DQ }, { "MidNumLet", MidNumLet },
                                        { "MidLetter", MidLetter }, { "MidNum", MidNum }, { "Numeric", Numeric }, { "ExtendNumLet", ExtendNumLet },
                                        { "WSegSpace", WSeg } };
    return m.at(s);
}
inline char const* name(W w)
{
    static char const* n[] = { "Other", "CR", "LF", "Newline", "Extend", "ZWJ", "Format", "RI", "Katakana", "Hebrew", "ALetter", "SQ", "DQ", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "WSeg", "End" };
    return n[w];
}
inline std::vector<Cls> const& table()
{
    static std::vector<Cls> t = [] {
        std::vector<Cls> r(ucd::N);
        std::vector<W> m;
        for (auto& n: ucd::wb().names)
            m.push_back(wOf(n));
        auto const& ep = ucd::emoji().at("Extended_Pictographic");
        for (uint32_t c = 0; c < ucd::N; ++c)
            r[c] = { m[ucd::wb().v[c]], ep[c] };
        return r;
    }();
    return t;
}
inline Cls cls(char32_t c) { return c < ucd::N ? table()[c] : Cls {}; }
inline bool transparent(W w) { return w == Extend || w == Format || w == ZWJ; }
inline bool newline(W w) { return w == CR || w == LF || w == Newline; }
inline bool ah(W w) { return w == ALetter || w == Hebrew; }
inline bool mnlq(W w) { return w == MidNumLet || w == SQ; }

/// The rules behind WB4, on the text with ignored characters removed: a2 a × b n.
inline bool core(W a2, W a, W b, W n, bool oddRI)
{
    if (ah(a) && ah(b)) return false;                                                     // WB5
    if (ah(a) && (b == MidLetter || mnlq(b)) && ah(n)) return false;                      // WB6
    if (ah(a2) && (a == MidLetter || mnlq(a)) && ah(b)) return false;                     // WB7
    if (a == Hebrew && b == SQ) return false;                                             // WB7a
    if (a == Hebrew && b == DQ && n == Hebrew) return false;                              // WB7b
    if (a2 == Hebrew && a == DQ && b == Hebrew) return false;                             // WB7c
    if (a == Numeric && b == Numeric) return false;                                       // WB8
    if (ah(a) && b == Numeric) return false;                                              // WB9
    if (a == Numeric && ah(b)) return false;                                              // WB10
    if (a2 == Numeric && (a == MidNum || mnlq(a)) && b == Numeric) return false;          // WB11
    if (a == Numeric && (b == MidNum || mnlq(b)) && n == Numeric) return false;           // WB12
    if (a == Katakana && b == Katakana) return false;                                     // WB13
    if ((ah(a) || a == Numeric || a == Katakana || a == ExtendNumLet) && b == ExtendNumLet) return false; // WB13a
    if (a == ExtendNumLet && (ah(b) || b == Numeric || b == Katakana)) return false;      // WB13b
    if (a == RI && b == RI && oddRI) return false;                                        // WB15, WB16
    return true;                                                                          // WB999
}

/// Direct reading: word starts of a whole text.
inline std::vector<size_t> boundaries(std::vector<Cls> const& t)
{
    std::vector<size_t> r;
    // which characters WB4 attaches to what precedes them
    std::vector<bool> ignored(t.size(), false);
    for (size_t i = 1; i < t.size(); ++i)
        ignored[i] = transparent(t[i].w) && !newline(t[i - 1].w);
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (i == 0)
        {
            r.push_back(0);
            continue;
        }
        W a = t[i - 1].w, b = t[i].w;
        bool brk;
        if (a == CR && b == LF) brk = false;                     // WB3
        else if (newline(a)) brk = true;                          // WB3a
        else if (newline(b)) brk = true;                          // WB3b
        else if (a == ZWJ && t[i].ep) brk = false;                // WB3c
        else if (a == WSeg && b == WSeg) brk = false;             // WB3d
        else if (ignored[i]) brk = false;                         // WB4
        else
        {
            long p = long(i) - 1;
            while (ignored[size_t(p)])
                --p;
            long q = p - 1;
            while (q >= 0 && ignored[size_t(q)])
                --q;
            size_t n = i + 1;
            while (n < t.size() && transparent(t[n].w))
                ++n;
            unsigned ri = 0;
            for (long k = p; k >= 0; --k)
                if (!ignored[size_t(k)])
                {
                    if (t[size_t(k)].w != RI)
                        break;
                    ++ri;
                }
            brk = core(q < 0 ? End : t[size_t(q)].w, t[size_t(p)].w, b, n < t.size() ? t[n].w : End, ri % 2);
        }
        if (brk)
            r.push_back(i);
    }
    return r;
}
inline std::vector<size_t> boundaries(std::u32string_view s)
{
    std::vector<Cls> t;
    for (char32_t c: s)
        t.push_back(cls(c));
    return boundaries(t);
}

struct State
{
    W raw = End, a = End, a2 = End;
    bool odd = false;
    bool operator==(State const&) const = default;
    uint32_t key() const { return raw | uint32_t(a) << 8 | uint32_t(a2) << 16 | uint32_t(odd) << 24; }
};
/// n: class of the next character behind c that is not Extend/Format/ZWJ (End if there is none)
inline bool boundary(State const& s, Cls c, W n)
{
    if (s.raw == End) return true;
    if (s.raw == CR && c.w == LF) return false;
    if (newline(s.raw) || newline(c.w)) return true;
    if (s.raw == ZWJ && c.ep) return false;
    if (s.raw == WSeg && c.w == WSeg) return false;
    if (transparent(c.w)) return false;
    return core(s.a2, s.a, c.w, n, s.odd);
}
inline State advance(State const& s, Cls c)
{
    State r = s;
    r.raw = c.w;
    if (transparent(c.w) && s.raw != End && !newline(s.raw))
        return r;
    r.a2 = s.a;
    r.a = c.w;
    r.odd = c.w == RI && !(s.a == RI && s.odd);
    return r;
}
/// Simplest representative per class.
inline std::vector<char32_t> alphabet()
{
    std::map<Cls, char32_t> m;
    for (uint32_t c = 0; c < ucd::N; ++c)
        if (!m.count(table()[c]) && mc::isScalar(c))
            m[table()[c]] = c;
    std::vector<char32_t> r;
    for (auto& [k, v]: m)
        r.push_back(v);
    return r;
}
/// Validates both references: conformance file, and against each other on all class sequences to a depth.
inline size_t selfCheck(int depth)
{
    size_t n = 0;
    ucd::lines("auxiliary/WordBreakTest.txt", [&](auto const& f) {
        std::u32string t;
        std::vector<size_t> want;
        for (auto& w: ucd::split(f[0], ' '))
        {
            if (w == "\xC3\xB7")
                want.push_back(t.size());
            else if (w == "\xC3\x97" || w.empty())
                ;
            else
                t += char32_t(strtoul(w.c_str(), nullptr, 16));
        }
        want.pop_back();
        if (boundaries(t) != want)
        {
            fprintf(stderr, "reference disagrees with WordBreakTest: %s\n", f[0].c_str());
            exit(3);
        }
        ++n;
    });
    auto A = alphabet();
    mc::sequences(int(A.size()), 1, depth, [&](std::vector<int> const& s) {
        std::vector<Cls> t;
        for (int i: s)
            t.push_back(cls(A[size_t(i)]));
        auto d = boundaries(t);
        std::vector<size_t> a;
        State st;
        for (size_t i = 0; i < t.size(); ++i)
        {
            size_t k = i + 1;
            while (k < t.size() && transparent(t[k].w))
                ++k;
            if (boundary(st, t[i], k < t.size() ? t[k].w : End))
                a.push_back(i);
            st = advance(st, t[i]);
        }
        if (a != d)
        {
            fprintf(stderr, "word references disagree\n");
            exit(3);
        }
    });
    return n;
}
} // namespace wref
