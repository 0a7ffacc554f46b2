// Reference normalizer (UAX #15), written from the definitions D108..D117 and the UCD files.
#pragma once
#include "mc.hpp"
#include "ucdref.hpp"

namespace nref
{
enum Form { NFC, NFD, NFKC, NFKD };
inline char const* FormName[4] = { "NFC", "NFD", "NFKC", "NFKD" };

inline uint8_t ccc(char32_t c) { return c < ucd::N ? ucd::data().ccc[c] : 0; }

struct Tables
{
    // full decompositions; index into pool, 0 = none
    std::vector<uint32_t> canon = std::vector<uint32_t>(ucd::N, 0), compat = std::vector<uint32_t>(ucd::N, 0);
    std::vector<std::u32string> pool { {} };
    std::unordered_map<uint64_t, char32_t> comp;
    std::vector<bool> fullExclusion = std::vector<bool>(ucd::N);
    // quick check values: 'Y' 'N' 'M' per form
    std::vector<char> qc[4];
    std::set<char32_t> exclusion; // CompositionExclusions.txt
};
inline void full(char32_t c, bool k, std::u32string& out)
{
    auto const& d = ucd::data();
    if (c >= 0xAC00 && c < 0xAC00 + 11172)
    {
        unsigned s = c - 0xAC00;
        out += char32_t(0x1100 + s / 588);
        out += char32_t(0x1161 + s % 588 / 28);
        if (s % 28)
            out += char32_t(0x11A7 + s % 28);
        return;
    }
    if (auto it = d.canon.find(c); it != d.canon.end())
    {
        for (auto x: it->second)
            full(x, k, out);
        return;
    }
    if (k)
        if (auto it = d.compat.find(c); it != d.compat.end())
        {
            for (auto x: it->second)
                full(x, k, out);
            return;
        }
    out += c;
}
inline Tables const& tables()
{
    static Tables t = [] {
        Tables r;
        for (auto& q: r.qc)
            q.assign(ucd::N, 'Y');
        ucd::lines("DerivedNormalizationProps.txt", [&](auto const& f) {
            if (f.size() == 2 && f[1] == "Full_Composition_Exclusion")
            {
                auto g = ucd::range(f[0]);
                for (auto c = g.a; c <= g.b; ++c)
                    r.fullExclusion[c] = true;
            }
            if (f.size() == 3)
            {
                int k = f[1] == "NFC_QC" ? 0 : f[1] == "NFD_QC" ? 1 : f[1] == "NFKC_QC" ? 2 : f[1] == "NFKD_QC" ? 3 : -1;
                if (k >= 0)
                {
                    auto g = ucd::range(f[0]);
                    for (auto c = g.a; c <= g.b; ++c)
                        r.qc[k][c] = f[2][0];
                }
            }
        });
        ucd::lines("CompositionExclusions.txt", [&](auto const& f) {
            auto g = ucd::range(f[0]);
            for (auto c = g.a; c <= g.b; ++c)
                r.exclusion.insert(c);
        });
        for (char32_t c = 0; c < ucd::N; ++c)
        {
            std::u32string a, b;
            full(c, false, a);
            full(c, true, b);
            if (a != std::u32string(1, c))
            {
                r.canon[c] = uint32_t(r.pool.size());
                r.pool.push_back(a);
            }
            if (b != std::u32string(1, c))
            {
                r.compat[c] = uint32_t(r.pool.size());
                r.pool.push_back(b);
            }
        }
        for (auto& [c, m]: ucd::data().canon)
            if (m.size() == 2 && !r.fullExclusion[c])
                r.comp[uint64_t(m[0]) << 32 | m[1]] = c;
        return r;
    }();
    return t;
}

inline char32_t pair(char32_t a, char32_t b)
{
    if (a >= 0x1100 && a < 0x1100 + 19 && b >= 0x1161 && b < 0x1161 + 21)
        return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    if (a >= 0xAC00 && a < 0xAC00 + 11172 && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11A7 + 28)
        return a + (b - 0x11A7);
    auto const& t = tables().comp;
    auto it = t.find(uint64_t(a) << 32 | b);
    return it == t.end() ? 0 : it->second;
}

inline std::u32string decompose(std::u32string_view s, bool k)
{
    auto const& t = tables();
    std::u32string r;
    for (char32_t c: s)
    {
        uint32_t i = c < ucd::N ? (k ? t.compat[c] : t.canon[c]) : 0;
        if (i)
            r += t.pool[i];
        else
            r += c;
    }
    // canonical ordering: stable sort of every maximal run of non-starters
    for (size_t i = 0; i < r.size();)
    {
        if (!ccc(r[i]))
        {
            ++i;
            continue;
        }
        size_t j = i;
        while (j < r.size() && ccc(r[j]))
            ++j;
        std::stable_sort(r.begin() + long(i), r.begin() + long(j), [](char32_t a, char32_t b) { return ccc(a) < ccc(b); });
        i = j;
    }
    return r;
}

/// D117: each C, last starter L in front of it; composes unless blocked (some B between with ccc(B)=0 or >= ccc(C)).
inline std::u32string compose(std::u32string const& d)
{
    std::u32string r;
    long starter = -1;
    for (char32_t c: d)
    {
        if (starter >= 0)
        {
            bool blocked = false;
            if (size_t(starter) + 1 < r.size())
            {
                auto b = ccc(r.back());
                blocked = b == 0 || b >= ccc(c);
            }
            if (!blocked)
                if (char32_t p = pair(r[size_t(starter)], c))
                {
                    r[size_t(starter)] = p;
                    continue;
                }
        }
        if (ccc(c) == 0)
            starter = long(r.size());
        r += c;
    }
    return r;
}
inline std::u32string normalize(std::u32string_view s, int form)
{
    auto d = decompose(s, form >= NFKC);
    return form == NFC || form == NFKC ? compose(d) : d;
}
inline char quickCheck(std::u32string_view s, int form)
{
    char res = 'Y';
    int last = 0;
    for (char32_t c: s)
    {
        int k = ccc(c);
        if (last > k && k)
            return 'N';
        last = k;
        char q = c < ucd::N ? tables().qc[form][c] : 'Y';
        if (q == 'N')
            return 'N';
        if (q == 'M')
            res = 'M';
    }
    return res;
}

/// Checks the reference itself against NormalizationTest.txt; returns the number of lines that hold.
inline int selfCheck(std::string const& file)
{
    int n = 0;
    FILE* f = fopen(file.c_str(), "r");
    if (!f)
        return -1;
    char line[4096];
    std::vector<bool> listed(ucd::N);
    bool part1 = false, ok = true;
    while (fgets(line, sizeof line, f))
    {
        std::string s = line;
        if (s[0] == '@')
            part1 = s.substr(0, 6) == "@Part1";
        if (s[0] == '#' || s[0] == '@' || s[0] == '\n')
            continue;
        auto p = ucd::split(s, ';');
        if (p.size() < 5)
            continue;
        std::u32string c[5];
        for (size_t i = 0; i < 5; ++i)
            for (auto x: ucd::cps(p[i]))
                c[i] += x;
        if (part1)
            listed[c[0][0]] = true;
        for (size_t i = 0; i < 5; ++i)
        {
            ok = ok && normalize(c[i], NFC) == c[i < 3 ? 1 : 3] && normalize(c[i], NFD) == c[i < 3 ? 2 : 4];
            ok = ok && normalize(c[i], NFKC) == c[3] && normalize(c[i], NFKD) == c[4];
        }
        ++n;
        if (!ok)
        {
            fclose(f);
            return -2;
        }
    }
    fclose(f);
    for (char32_t c = 0; c < ucd::N; ++c)
        if (!listed[c])
            for (int k = 0; k < 4; ++k)
                if (normalize(std::u32string_view(&c, 1), k) != std::u32string_view(&c, 1))
                    return -3;
    return n;
}

/// Representatives of the ways characters take part in normalization.
inline std::vector<char32_t> const& alphabet()
{
    static std::vector<char32_t> a {
        U'a', U'q', 0x0301, 0x0327, 0x0323, 0x0308, 0x0345, 0x0338,
        0x00E9, 0x1E69, 0x212B, 0x0344,                 // composite, two marks, singleton, non-starter decomposition
        0x0F71, 0x0F72, 0x0F74, 0x0F73,                 // starter with non-starter decomposition
        0x1100, 0x1161, 0x11A7, 0x11A8, 0xAC00, 0xAC01, // Hangul
        0x09C7, 0x09BE, 0x0DD9, 0x0DCF, 0x0DCA,         // starters composing with starters (and 0DDC+0DCA)
        0x0958, 0x1D15E, 0xFB1D,                        // excluded from composition
        0xFF9E, 0xFF76, 0x3099, 0xFDFA, 0xFB01,         // compatibility
        0x11131, 0x11127, 0x2F800, 0x0340, 0x03B9, 0x1F80, 0x1FB3, 0xFFFD, U'\n'
    };
    return a;
}

/// Calls f(text) for the bounded domain of texts; shard-aware.
template <typename F>
void texts(int depth, bool sweep, F&& f)
{
    auto const& A = alphabet();
    uint64_t item = 0;
    mc::sequences(int(A.size()), 0, depth, [&](std::vector<int> const& s) {
        if (!mc::mine(item++))
            return;
        char32_t b[8];
        for (size_t i = 0; i < s.size(); ++i)
            b[i] = A[size_t(s[i])];
        f(std::u32string_view(b, s.size()));
    });
    std::vector<char32_t> marks, firsts, seconds, fs, ss;
    for (char32_t c = 0; c < ucd::N; ++c)
        if (ccc(c))
            marks.push_back(c);
    {
        std::set<char32_t> x, y;
        for (auto& [c, m]: ucd::data().canon)
            if (m.size() == 2)
                x.insert(m[0]), y.insert(m[1]);
        firsts.assign(x.begin(), x.end());
        seconds.assign(y.begin(), y.end());
    }
    // every pair of combining marks on a starter
    for (auto m1: marks)
    {
        if (!mc::mine(item++))
            continue;
        for (auto m2: marks)
        {
            char32_t b[4] = { U'a', m1, m2, U'a' };
            f(std::u32string_view(b, 3));
        }
        for (auto g: { 0x0301, 0x0327, 0x3099, 0x0F72, 0x05B0 })
            for (auto h: { 0x0300, 0x0316, 0x0345, 0x0F74, 0x094D })
            {
                char32_t b[5] = { U'e', m1, char32_t(g), char32_t(h), 0x0301 };
                f(std::u32string_view(b, 5));
            }
    }
    // every pair of canonical decompositions, composed directly, behind other marks, and with something between
    for (auto a: firsts)
    {
        if (!mc::mine(item++))
            continue;
        for (auto s: seconds)
        {
            char32_t b[2] = { a, s };
            f(std::u32string_view(b, 2));
            for (char32_t m: { 0x0301, 0x0327, 0x0316, 0x0345, 0x0338, 0x3099, 0x0061, 0x034F, 0x0F71, 0x1D165, 0xAC00, 0x05B4 })
            {
                char32_t d[3] = { a, m, s }, e[3] = { a, s, m }, g[5] = { m, a, s, s, m };
                f(std::u32string_view(d, 3));
                f(std::u32string_view(e, 3));
                f(std::u32string_view(g, 5));
            }
        }
    }
    // Hangul around every boundary of the jamo blocks
    for (char32_t l = 0x10FF; l <= 0x1113; ++l)
    {
        if (!mc::mine(item++))
            continue;
        for (char32_t v = 0x1160; v <= 0x1176; ++v)
            for (char32_t t = 0x11A6; t <= 0x11C3; ++t)
            {
                char32_t b[4] = { l, v, t, t };
                f(std::u32string_view(b, 3));
                f(std::u32string_view(b, 4));
                f(std::u32string_view(b, 2));
            }
    }
    for (char32_t s = 0xABFF; s <= 0xD7A4; ++s)
    {
        if (!mc::mine(item++))
            continue;
        for (char32_t t = 0x11A6; t <= 0x11C3; ++t)
        {
            char32_t b[3] = { s, t, t };
            f(std::u32string_view(b, 2));
            f(std::u32string_view(b, 3));
        }
    }
    // every code point in contexts
    if (sweep)
        for (char32_t c = 0; c < 0x110400; ++c)
        {
            if (!mc::mine(item++))
                continue;
            char32_t t[][3] = { { c, 0, 0 },           { U'a', c, 0 },        { c, 0x0301, 0 },     { U'a', 0x0323, c },  { c, 0x0327, 0x0301 },
                                { c, 0x3099, 0 },      { 0xAC00, c, 0 },      { 0x1100, c, 0x11A8 }, { c, 0x1161, 0 },     { c, c, 0x0338 },
                                { 0x09C7, c, 0x09BE }, { 0x0301, c, 0x0316 }, { c, 0x11A8, c } };
            int len[] = { 1, 2, 2, 3, 3, 2, 2, 3, 2, 3, 3, 3, 3 };
            for (size_t i = 0; i < std::size(len); ++i)
                f(std::u32string_view(t[i], size_t(len[i])));
        }
    for (char32_t c: { 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x1100ACu, 0x1100E9u })
        if (mc::mine(item++))
        {
            char32_t t[] = { c, 0x0301, c };
            f(std::u32string_view(t, 3));
        }
    // pumped texts
    static std::u32string const periods[] = { U"a", U"\u0301", U"\u0327\u0301", U"\u0301\u0327\u0308", U"\u00e9", U"a\u0301", U"\uac00", U"\u1100\u1161\u11a8",
                                              U"\u1e69", U"\ufdfa", U"\u0344", U"\U0001d15e", U"\u0f73", U"a\u0323\u0301\u0345" };
    std::vector<int> counts;
    for (int n = 1; n <= 40; ++n)
        counts.push_back(n);
    for (int n: { 63, 64, 65, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025, 2049 })
        counts.push_back(n);
    for (auto& p: periods)
        for (int n: counts)
            for (auto& suf: { U"", U"\u0316\u0300", U"\u0301b" })
            {
                if (!mc::mine(item++))
                    continue;
                std::u32string t = U"e";
                for (int i = 0; i < n; ++i)
                    t += p;
                t += suf;
                f(t);
                f(std::u32string_view(t).substr(1));
            }
    for (int n: { 32767, 32768, 65535, 65536, 65537, 70000 })
        for (auto& p: { U"a", U"a\u0301", U"\uac00", U"\u0301", U"\u212b" })
        {
            if (!mc::mine(item++))
                continue;
            std::u32string t = U"e";
            for (int i = 0; i < n; ++i)
                t += p;
            f(t);
            f(t + U"\u0327\u0316\u1161b");
        }
}
} // namespace nref
