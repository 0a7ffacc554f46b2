// N02: quick checks, is_normalized, equivalence and the single-character queries.
#include "mc.hpp"
#include "normref.hpp"
#include <libunicode/convert.h>
#include <libunicode/normalization.h>
#include <libunicode/ucd_enums.h>
using namespace unicode;

static Normalization_Form F[4] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
static char const* Name[4] = { "NFC", "NFD", "NFKC", "NFKD" };
static char qc(Quick_Check_Result r) { return r == Quick_Check_Result::Yes ? 'Y' : r == Quick_Check_Result::No ? 'N' : 'M'; }
static bool isNormalized(std::u32string_view t, int k)
{
    switch (k)
    {
        case 0: return is_nfc(t);
        case 1: return is_nfd(t);
        case 2: return is_nfkc(t);
        default: return is_nfkd(t);
    }
}
static bool isNormalized(std::string_view t, int k)
{
    switch (k)
    {
        case 0: return is_nfc(t);
        case 1: return is_nfd(t);
        case 2: return is_nfkc(t);
        default: return is_nfkd(t);
    }
}

static void check(std::u32string_view t)
{
    bool scalars = true;
    for (char32_t c: t)
        scalars = scalars && mc::isScalar(c);
    std::string u8 = scalars ? mc::utf8(t) : std::string();
    mc::states++;
    for (int k = 0; k < 4; ++k)
    {
        mc::cur("checks", t.data(), t.size(), 4, k);
        auto norm = nref::normalize(t, k);
        bool wantN = norm == t;
        char wantQ = nref::quickCheck(t, k);
        auto id = [&](char const* what) { return std::string(what) + "-" + Name[k]; };
        auto msg = [&](char const* what, std::string got, std::string want) {
            return std::string(what) + "(" + mc::hex(t) + ", " + Name[k] + ") = " + got + " expected " + want;
        };
        char q = qc(quick_check(t, F[k]));
        if (q != wantQ)
            mc::violation(id("quick_check"), msg("quick_check", std::string(1, q), std::string(1, wantQ)));
        bool n = is_normalized(t, F[k]);
        if (n != wantN)
            mc::violation(id("is_normalized"), msg("is_normalized", n ? "true" : "false", wantN ? "true" : "false"));
        if (isNormalized(t, k) != wantN)
            mc::violation(id("is_nfx"), msg("is_nfx", "wrong", wantN ? "true" : "false"));
        auto once = normalize(t, F[k]);
        auto twice = normalize(std::u32string_view(once), F[k]);
        if (once != twice)
            mc::violation(id("idempotent"), msg("normalize twice", mc::hex(twice), mc::hex(once)));
        if (mc::factsOnly && once != norm)
            mc::violation(id("normalize"), msg("normalize", mc::hex(once), mc::hex(norm)));
        mc::traces += 4;
        if (scalars)
        {
            mc::cur("checks-u8", u8.data(), u8.size(), 1, k);
            if (qc(quick_check(std::string_view(u8), F[k])) != wantQ)
                mc::violation(id("quick_check-u8"), msg("quick_check(UTF-8)", "other", std::string(1, wantQ)));
            if (is_normalized(std::string_view(u8), F[k]) != wantN || isNormalized(std::string_view(u8), k) != wantN)
                mc::violation(id("is_normalized-u8"), msg("is_normalized(UTF-8)", "other", wantN ? "true" : "false"));
            mc::traces += 2;
        }
    }
    mc::transitions += t.size();
}

static void checkPair(std::u32string const& a, std::u32string const& b, bool u8)
{
    mc::cur("equivalence", a.data(), a.size(), 4, b.empty() ? -1 : long(b[0]), b.size() > 1 ? long(b[1]) : -1);
    bool wc = nref::decompose(a, false) == nref::decompose(b, false), wk = nref::decompose(a, true) == nref::decompose(b, true);
    auto msg = [&](char const* w, bool want) { return std::string(w) + "(" + mc::hex(a) + " | " + mc::hex(b) + ") is not " + (want ? "true" : "false"); };
    if (is_canonically_equivalent(std::u32string_view(a), std::u32string_view(b)) != wc)
        mc::violation("canonical-equivalence", msg("is_canonically_equivalent", wc));
    if (is_compatibility_equivalent(std::u32string_view(a), std::u32string_view(b)) != wk)
        mc::violation("compatibility-equivalence", msg("is_compatibility_equivalent", wk));
    mc::traces += 2;
    mc::states++;
    if (u8)
    {
        auto x = mc::utf8(a), y = mc::utf8(b);
        if (is_canonically_equivalent(std::string_view(x), std::string_view(y)) != wc)
            mc::violation("canonical-equivalence-u8", msg("is_canonically_equivalent(UTF-8)", wc));
        if (is_compatibility_equivalent(std::string_view(x), std::string_view(y)) != wk)
            mc::violation("compatibility-equivalence-u8", msg("is_compatibility_equivalent(UTF-8)", wk));
        mc::traces += 2;
    }
}

static void queries(char32_t c)
{
    auto const& d = ucd::data();
    auto const& t = nref::tables();
    bool in = c < ucd::N;
    bool syl = c >= 0xAC00 && c <= 0xD7A3;
    mc::cur("queries", &c, 1, 4);
    auto bad = [&](char const* w, std::string got, std::string want) {
        mc::violation(w, std::string(w) + "(" + mc::hexcp(c) + ") = " + got + " expected " + want);
    };
    auto yn = [](bool b) { return std::string(b ? "true" : "false"); };
    mc::traces += 16;
    if (canonical_combining_class(c) != nref::ccc(c))
        bad("canonical_combining_class", std::to_string(canonical_combining_class(c)), std::to_string(nref::ccc(c)));
    std::vector<char32_t> canon, compat;
    if (in)
    {
        if (auto i = d.canon.find(c); i != d.canon.end())
            canon = i->second;
        if (auto i = d.compat.find(c); i != d.compat.end())
            compat = i->second;
    }
    if (syl)
    {
        std::u32string f;
        nref::full(c, false, f);
        canon.assign(f.begin(), f.end());
    }
    if (compat.empty())
        compat = canon;
    if (canonical_decomposition(c) != canon)
        bad("canonical_decomposition", mc::hex(canonical_decomposition(c)), mc::hex(canon));
    if (compatibility_decomposition(c) != compat)
        bad("compatibility_decomposition", mc::hex(compatibility_decomposition(c)), mc::hex(compat));
    using D = Decomposition_Type;
    static std::map<std::string, D> const tags { { "circle", D::Circle }, { "compat", D::Compat }, { "final", D::Final }, { "font", D::Font },
                                                 { "fraction", D::Fraction }, { "initial", D::Initial }, { "isolated", D::Isolated },
                                                 { "medial", D::Medial }, { "narrow", D::Narrow }, { "noBreak", D::Nobreak }, { "small", D::Small },
                                                 { "square", D::Square }, { "sub", D::Sub }, { "super", D::Super }, { "vertical", D::Vertical },
                                                 { "wide", D::Wide } };
    D want = D::None;
    if (!canon.empty())
        want = D::Canonical;
    else if (in)
        if (auto i = d.compatTag.find(c); i != d.compatTag.end())
            want = tags.at(i->second);
    if (decomposition_type(c) != want)
        bad("decomposition_type", std::to_string(int(decomposition_type(c))), std::to_string(int(want)));
    if (is_composition_exclusion(c) != t.exclusion.contains(c))
        bad("is_composition_exclusion", yn(is_composition_exclusion(c)), yn(t.exclusion.contains(c)));
    bool fe = in && t.fullExclusion[c];
    if (is_full_composition_exclusion(c) != fe)
        bad("is_full_composition_exclusion", yn(!fe), yn(fe));
    char q[4];
    for (int k = 0; k < 4; ++k)
        q[k] = in ? t.qc[k][c] : 'Y';
    auto a = nfc_quick_check(c);
    char g0 = a == NFC_Quick_Check::Yes ? 'Y' : a == NFC_Quick_Check::No ? 'N' : 'M';
    auto b = nfkc_quick_check(c);
    char g2 = b == NFKC_Quick_Check::Yes ? 'Y' : b == NFKC_Quick_Check::No ? 'N' : 'M';
    if (g0 != q[0])
        bad("nfc_quick_check", std::string(1, g0), std::string(1, q[0]));
    if (g2 != q[2])
        bad("nfkc_quick_check", std::string(1, g2), std::string(1, q[2]));
    if (nfd_quick_check(c) != (q[1] == 'Y'))
        bad("nfd_quick_check", yn(nfd_quick_check(c)), std::string(1, q[1]));
    if (nfkd_quick_check(c) != (q[3] == 'Y'))
        bad("nfkd_quick_check", yn(nfkd_quick_check(c)), std::string(1, q[3]));
    if (is_hangul_syllable(c) != syl)
        bad("is_hangul_syllable", yn(!syl), yn(syl));
    if (is_hangul_l_jamo(c) != (c >= 0x1100 && c <= 0x1112))
        bad("is_hangul_l_jamo", "wrong", "");
    if (is_hangul_v_jamo(c) != (c >= 0x1161 && c <= 0x1175))
        bad("is_hangul_v_jamo", "wrong", "");
    if (is_hangul_t_jamo(c) != (c >= 0x11A8 && c <= 0x11C2))
        bad("is_hangul_t_jamo", "wrong", "");
    char32_t o[4] = { 0xEEEE, 0xEEEE, 0xEEEE, 0xEEEE };
    size_t n = hangul_decompose(c, o);
    std::u32string got(o, o + std::min<size_t>(n, 4)), exp;
    if (syl)
        nref::full(c, false, exp);
    if (got != exp || o[n < 3 ? n : 3] != 0xEEEE || o[3] != 0xEEEE)
        bad("hangul_decompose", mc::hex(got), mc::hex(exp));
}

/// Every code point by itself, with a mark, and every pair of a canonical decomposition.
static int facts()
{
    std::set<char32_t> firsts, seconds, marks;
    for (auto& [c, m]: ucd::data().canon)
        if (m.size() == 2)
            firsts.insert(m[0]), seconds.insert(m[1]);
    for (char32_t c = 0; c < 0x110000; ++c)
    {
        queries(c);
        if (nref::ccc(c))
            marks.insert(c);
        char32_t const t[3] = { c, 0x0301, 0x0327 };
        check(std::u32string_view(t, 1));
        if (c % 16 == 0 || nref::ccc(c) || ucd::data().canon.contains(c) || ucd::data().compat.contains(c))
            check(std::u32string_view(t, 3));
    }
    for (char32_t a: firsts)
        for (char32_t b: seconds)
        {
            char32_t const t[3] = { a, b, 0x0316 };
            check(std::u32string_view(t, 2));
            check(std::u32string_view(t, 3));
        }
    for (char32_t a: marks)
        for (char32_t b: marks)
            if (a >= 0x10000 || b >= 0x10000)
            {
                char32_t const t[3] = { 'a', a, b };
                check(std::u32string_view(t, 3));
            }
    return mc::finish();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (mc::factsOnly)
        return facts();
    int n = mc::opt.shard == 0 ? nref::selfCheck(mc::opt.args.at(0)) : 1;
    if (n < 1)
    {
        fprintf(stderr, "reference normalizer fails NormalizationTest.txt (%d)\n", n);
        return 2;
    }
    nref::texts(mc::opt.thorough ? 4 : 3, true, [&](std::u32string_view t) {
        if (!mc::enough())
            check(t);
    });
    for (char32_t c = 0; c < 0x111000; ++c)
        if (mc::mine(c) && !mc::enough())
            queries(c);
    for (char32_t c: { 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x80000041u, 0xFFFFAC00u })
        queries(c);
    // Hangul composition: every combination around the jamo blocks
    for (char32_t l = 0x10FE; l <= 0x1115; ++l)
        if (mc::mine(l) && !mc::enough())
            for (char32_t v = 0x115F; v <= 0x1178; ++v)
                for (int t = -1; t <= 0x11C4 - 0x11A5; ++t)
                {
                    char32_t tt = t < 0 ? 0 : char32_t(0x11A5 + t);
                    bool ok = l >= 0x1100 && l <= 0x1112 && v >= 0x1161 && v <= 0x1175 && (tt == 0 || (tt >= 0x11A8 && tt <= 0x11C2));
                    char32_t want = ok ? 0xAC00 + ((l - 0x1100) * 21 + (v - 0x1161)) * 28 + (tt ? tt - 0x11A7 : 0) : 0;
                    mc::traces++;
                    if (hangul_compose(l, v, tt) != want)
                        mc::violation("hangul_compose", "hangul_compose(" + mc::hexcp(l) + "," + mc::hexcp(v) + "," + mc::hexcp(tt) + ") = "
                                                            + mc::hexcp(hangul_compose(l, v, tt)) + " expected " + mc::hexcp(want));
                }
    // equivalence: every pair of short texts, every code point with its decompositions and neighbours
    std::vector<std::u32string> ts;
    auto const& A = nref::alphabet();
    mc::sequences(int(A.size()), 0, 2, [&](auto const& s) {
        std::u32string t;
        for (int i: s)
            t += A[size_t(i)];
        ts.push_back(t);
    });
    for (size_t i = 0; i < ts.size(); ++i)
        if (mc::mine(i) && !mc::enough())
            for (auto& b: ts)
                checkPair(ts[i], b, ts[i].size() + b.size() <= 3);
    for (char32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c) || !mc::isScalar(c))
            continue;
        std::u32string a(1, c);
        for (int k = 0; k < 4; ++k)
        {
            auto nf = nref::normalize(a, k);
            checkPair(a, nf, true);
            checkPair(U"a" + a + U"\u0301", U"a" + nf + U"\u0301", true);
            checkPair(nf, U"x" + nf, false);
        }
        checkPair(a, U"", true);
        checkPair(a, std::u32string(1, c + 1), false);
        checkPair(a + U"a", a, true);
    }
    mc::sample("is_nfc(e U+0301) = " + std::string(is_nfc(std::u32string_view(U"e\u0301")) ? "true" : "false"));
    return mc::finish();
}
