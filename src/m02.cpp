// M02: string case conversion and comparison against per-character mappings and reference word boundaries.
#include "mc.hpp"
#include "ucdref.hpp"
#include "wordref.hpp"
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
using namespace unicode;
using namespace std::string_literals;
using std::u32string;
using std::u32string_view;

static std::vector<u32string> U, L, T, F; // full mappings
static std::vector<bool> cased;
static void loadRef()
{
    auto const& d = ucd::data();
    cased.resize(ucd::N);
    for (auto* v: { &U, &L, &T, &F })
        v->resize(ucd::N);
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        U[c] = u32string(1, d.upper[c]);
        L[c] = u32string(1, d.lower[c]);
        T[c] = u32string(1, d.title[c]);
        F[c] = u32string(1, c);
        auto const g = ucd::gc()[c];
        cased[c] = g == "Lu" || g == "Ll" || g == "Lt";
    }
    auto str = [](std::string const& s) {
        auto v = ucd::cps(s);
        return u32string(v.begin(), v.end());
    };
    ucd::lines("CaseFolding.txt", [&](auto const& f) {
        if (f[1] == "C" || f[1] == "F")
            F[strtoul(f[0].c_str(), nullptr, 16)] = str(f[2]);
    });
    ucd::lines("SpecialCasing.txt", [&](auto const& f) {
        if (f.size() > 4 && !f[4].empty())
            return;
        auto c = strtoul(f[0].c_str(), nullptr, 16);
        L[c] = str(f[1]);
        T[c] = str(f[2]);
        U[c] = str(f[3]);
    });
}
static void append(u32string& r, std::vector<u32string> const& m, char32_t c)
{
    if (c < ucd::N)
        r += m[c];
    else
        r += c;
}
static u32string map(std::vector<u32string> const& m, u32string_view t)
{
    u32string r;
    for (char32_t c: t)
        append(r, m, c);
    return r;
}
static u32string title(u32string_view t)
{
    auto b = wref::boundaries(t);
    u32string r;
    size_t next = 0;
    bool seen = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (next < b.size() && b[next] == i)
        {
            seen = false;
            ++next;
        }
        char32_t const c = t[i];
        if (c >= ucd::N || !cased[c])
            r += c;
        else
        {
            append(r, seen ? L : T, c);
            seen = true;
        }
    }
    return r;
}
static std::string cn(char32_t c)
{
    if (c >= ucd::N)
        return "beyond";
    return std::string(wref::name(wref::cls(c).w)) + (cased[c] ? "+cased" : "");
}
static std::string cls(u32string_view t)
{
    std::string r;
    for (size_t i = t.size() > 3 ? t.size() - 3 : 0; i < t.size(); ++i)
        r += (r.empty() ? "" : " ") + cn(t[i]);
    return r;
}
static mc::Guarded g32(1 << 20), g8(1 << 20);
static void differ(char const* what, u32string_view t, std::string const& got, std::string const& want)
{
    mc::violation(std::string(what) + "<" + cls(t), std::string(what) + " of " + mc::hex(t) + " is " + got + ", expected " + want);
}
static void check(u32string const& t)
{
    u32string const wu = map(U, t), wl = map(L, t), wf = map(F, t), wt = title(t);
    auto v = g32.put32(t);
    ++mc::states;
    auto one = [&](char const* what, u32string (*f)(u32string_view), u32string const& want) {
        mc::cur(what, v.data(), v.size(), 4);
        auto got = f(v);
        ++mc::transitions;
        if (got != want)
            differ(what, t, mc::hex(got), mc::hex(want));
    };
    one("to_uppercase", to_uppercase, wu);
    one("to_lowercase", to_lowercase, wl);
    one("casefold", casefold, wf);
    one("to_titlecase", to_titlecase, wt);
    for (char32_t c: t)
        if (!mc::isScalar(c))
            return;
    auto u = g8.put(mc::utf8(t));
    auto eight = [&](char const* what, std::string (*f)(std::string_view), u32string const& want) {
        mc::cur(what, u.data(), u.size(), 1);
        auto got = f(u);
        ++mc::transitions;
        if (got != mc::utf8(want))
            differ(what, t, mc::hex(got), mc::hex(mc::utf8(want)));
    };
    eight("to_uppercase(UTF-8)", to_uppercase, wu);
    eight("to_lowercase(UTF-8)", to_lowercase, wl);
    eight("casefold(UTF-8)", casefold, wf);
    eight("to_titlecase(UTF-8)", to_titlecase, wt);
}
static int sign(int x) { return x < 0 ? -1 : x > 0; }
struct Text
{
    u32string t, f;
    std::string u, fu;
    explicit Text(u32string s): t(std::move(s)), f(map(F, t)), u(mc::utf8(t)), fu(mc::utf8(f)) {}
};
static void compare(Text const& a, Text const& b)
{
    int const want = sign(a.f.compare(b.f)); // code point order, which is also the order of UTF-8
    mc::cur("casefold_compare", a.t.data(), a.t.size(), 4, b.t.empty() ? 0 : long(b.t[0]), long(b.t.size()));
    ++mc::states;
    mc::transitions += 4;
    int const c32 = sign(casefold_compare(u32string_view(a.t), u32string_view(b.t))), c8 = sign(casefold_compare(std::string_view(a.u), std::string_view(b.u)));
    bool const e32 = casefold_equals(u32string_view(a.t), u32string_view(b.t)), e8 = casefold_equals(std::string_view(a.u), std::string_view(b.u));
    if (c32 != want || c8 != want)
        mc::violation("compare<" + cls(a.t) + "|" + cls(b.t), "casefold_compare of " + mc::hex(a.t) + " and " + mc::hex(b.t) + " is " + std::to_string(c32) + " (UTF-32) " + std::to_string(c8)
                                                                   + " (UTF-8), the folded texts compare " + std::to_string(want));
    if (e32 != (want == 0) || e8 != (want == 0))
        mc::violation("equals<" + cls(a.t) + "|" + cls(b.t), "casefold_equals of " + mc::hex(a.t) + " and " + mc::hex(b.t) + " is " + (e32 ? "true" : "false") + "/" + (e8 ? "true" : "false"));
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    size_t lines = wref::selfCheck(4);
    loadRef();
    mc::extra["reference validation (lines and texts)"] = lines;
    u32string const al = U"aAz\u00DF\u01C4\u01C5\u01C6\uFB01\u0130\u0149\u03A3\u0345\u24D0\u2160\u02B0\u05D0\u30A2"
                         U"1_'.:, \u0301\u00AD\u200D\U0001F1E6\U0001F600\n\u4E2D\U00010400\U00010428";
    uint64_t item = 0;
    auto seqs = [&](u32string const& a, int from, int to) {
        mc::sequences(int(a.size()), from, to, [&](std::vector<int> const& s) {
            if (!mc::mine(item++) || mc::enough())
                return;
            u32string t;
            for (int i: s)
                t += a[size_t(i)];
            check(t);
        });
    };
    seqs(al, 0, mc::opt.thorough ? 5 : 4);
    seqs(U"aB\u01C6\u00DF1_'.: \u0301\u05D0\u24D0", 5, mc::opt.thorough ? 7 : 6);
    // every code point in contexts
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 8) || mc::enough())
            continue;
        u32string const x(1, char32_t(c));
        for (auto const& t: { x, U"a" + x, x + U"a", U"B" + x + U"B", U" " + x + x, U"1" + x + U"b", U"b'" + x + U" " + x, x + U"\u0301" + x })
            check(t);
        Text a(mc::isScalar(c) ? x : U"\uFFFD"), fu(map(U, a.t)), fl(map(L, a.t)), ff(a.f);
        compare(a, a);
        compare(a, fu);
        compare(fl, a);
        compare(a, ff);
        compare(a, Text(a.t + U"a"));
        compare(Text(U"A" + a.t), Text(U"a" + ff.t));
        for (char32_t d: U"\0aZ\u00DF\u0130\u03C3\uFF21\U00010400\U0010FFFF"s)
            compare(a, Text(u32string(1, d)));
    }
    // all pairs of short texts
    {
        std::vector<Text> texts;
        mc::sequences(int(al.size()), 0, 2, [&](std::vector<int> const& s) {
            u32string t;
            for (int i: s)
                t += al[size_t(i)];
            texts.emplace_back(t);
        });
        for (char32_t c: { U's', U'S', U'f', U'F', U'i', U'I', U'\u0307', U'\u01C7', U'\u02BC', U'n', U'N' })
            for (char32_t d: { U'\0', U's', U'S', U'i', U'I', U'n', U'\u0307' })
                texts.emplace_back(d ? u32string { c, d } : u32string { c });
        for (size_t i = 0; i < texts.size(); ++i)
            if (mc::mine(i))
                for (auto const& b: texts)
                    if (!mc::enough())
                        compare(texts[i], b);
        mc::extra["texts compared pairwise"] = texts.size();
    }
    // values that are not characters
    for (char32_t c: { 0xD800u, 0xDFFFu, 0x110000u, 0x110041u, 0x1FFFFFu, 0x200041u, 0x7FFFFFFFu, 0x80000041u, 0xFFFFFFFFu })
        for (auto const& t: { u32string { c }, u32string { c, c }, u32string { U' ', c, U' ' } })
            check(t);
    // long texts
    std::vector<size_t> counts;
    for (size_t n = 7; n <= 70; ++n)
        counts.push_back(n);
    for (size_t n: { 127, 128, 129, 255, 256, 257, 1000, 4097 })
        counts.push_back(n);
    for (char32_t p: al)
        for (char32_t q: al)
            for (size_t n: counts)
            {
                if (!mc::mine(item++) || mc::enough() || (n > 70 && p != q && q != U'a'))
                    continue;
                u32string t;
                for (size_t i = 0; i < n; ++i)
                    t += i % 2 ? q : p;
                check(t);
                check(U"a" + t + U"Ba");
            }
    for (char32_t p: al)
        if (mc::mine(item++) && !mc::enough())
            check(u32string(70001, p) + U" aB");
    // malformed UTF-8: what the decoder makes of it, mapped
    std::vector<std::string> const pieces { "a", "B", "\xC3\x9F", "\xC7\x86", " ", "\xEF\xAC\x81", "\xF0\x90\x90\x80", "\xFF", "\xC3", "\xE1\xBE", "\xF0\x90", "\x80", "\xED\xA0\x80" };
    mc::sequences(int(pieces.size()), 1, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::string u;
        for (int i: s)
            u += pieces[size_t(i)];
        auto v = g8.put(u);
        mc::cur("case conversion of malformed UTF-8", v.data(), v.size(), 1);
        u32string const t = convert_to<char32_t>(v);
        ++mc::states;
        mc::transitions += 5;
        auto one = [&](char const* what, std::string const& got, u32string const& want) {
            if (got != mc::utf8(want))
                mc::violation(std::string("malformed-") + what, std::string(what) + " of " + mc::hex(u) + " is " + mc::hex(got) + ", expected " + mc::hex(mc::utf8(want)));
        };
        one("to_uppercase", to_uppercase(v), map(U, t));
        one("to_lowercase", to_lowercase(v), map(L, t));
        one("casefold", casefold(v), map(F, t));
        one("to_titlecase", to_titlecase(v), title(t));
        if (!casefold_equals(v, std::string_view(mc::utf8(map(F, t)))))
            mc::violation("malformed-equals", mc::hex(u) + " does not equal its folded form");
    });
    mc::traces = mc::transitions;
    for (auto t: { U"straSSe \u01C6x'Y \uFB01ne"s, U"a.b:c a,b"s })
        mc::sample("title case of " + mc::utf8(t) + " is " + mc::utf8(to_titlecase(u32string_view(t))));
    return mc::finish();
}
