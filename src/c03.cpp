// C03: conversions between UTF-8, UTF-16, UTF-32 and wide strings.
#include <libunicode/convert.h>
#include <libunicode/utf8.h>

#include "mc.hpp"
#include "utf8ref.hpp"

#include <iterator>
#include <list>

using namespace unicode;

template <typename T>
using Str = std::basic_string<T>;
template <typename T>
using View = std::basic_string_view<T>;

template <typename T>
static Str<T> enc(std::u32string_view t)
{
    Str<T> r;
    for (char32_t c: t)
    {
        if constexpr (sizeof(T) == 1)
        {
            std::string s;
            mc::utf8Append(s, c);
            r += s;
        }
        else if constexpr (sizeof(T) == 2)
        {
            std::u16string s;
            mc::utf16Append(s, c);
            r += s;
        }
        else
            r += T(c);
    }
    return r;
}
template <typename T>
static char const* name()
{
    if constexpr (std::is_same_v<T, char>) return "char";
    else if constexpr (std::is_same_v<T, char16_t>) return "char16_t";
    else if constexpr (std::is_same_v<T, char32_t>) return "char32_t";
    else return "wchar_t";
}
static std::string tag;
static mc::Guarded* gin;

template <typename T>
static View<T> place(View<T> s)
{
    char* p = gin->atEnd(s.size() * sizeof(T));
    if (!s.empty())
        memcpy(p, s.data(), s.size() * sizeof(T));
    return { reinterpret_cast<T*>(p), s.size() };
}

template <typename S, typename T>
static void pair(std::u32string_view t)
{
    auto src = enc<S>(t);
    auto want = enc<T>(t);
    auto in = place<S>(src);
    mc::cur("convert_to", in.data(), in.size(), sizeof(S), sizeof(T));
    auto got = convert_to<T>(in);
    ++mc::transitions;
    if (got != want)
        mc::violation(tag + ":" + name<S>() + "->" + name<T>(), mc::hex(t) + " as " + name<S>() + " converts to " + name<T>() + " " + mc::hex(got) + ", expected " + mc::hex(want));
    Str<T> out;
    convert_to<T>(in, std::back_inserter(out));
    ++mc::transitions;
    if (out != want)
        mc::violation(tag + ":iter:" + name<S>() + "->" + name<T>(), mc::hex(t) + " as " + name<S>() + " via output iterator gives " + mc::hex(out));
}
template <typename S>
static void from(std::u32string_view t)
{
    pair<S, char>(t);
    pair<S, char16_t>(t);
    pair<S, char32_t>(t);
    pair<S, wchar_t>(t);
}
static void allPairs(std::u32string_view t)
{
    ++mc::states;
    from<char>(t);
    from<char16_t>(t);
    from<char32_t>(t);
    from<wchar_t>(t);
    ++mc::traces;
    if (mc::enough())
        exit(mc::finish());
}

template <typename S>
static void stepwise(std::u32string_view t)
{
    // encoder / iterator decoder used directly
    Str<S> out;
    encoder<S> write {};
    for (auto c: t)
        write(c, std::back_inserter(out));
    if (out != enc<S>(t))
        mc::violation(tag + ":encoder:" + name<S>(), "encoder<" + std::string(name<S>()) + "> of " + mc::hex(t) + " gives " + mc::hex(out));
    auto in = place<S>(enc<S>(t));
    auto i = in.begin();
    decoder<S> read {};
    std::u32string back;
    mc::cur("decoder(iterator)", in.data(), in.size(), sizeof(S));
    while (i != in.end())
    {
        auto c = read(i);
        if (c)
            back += *c;
        else
            back += 0xFFFFFFFF;
        mc::curSerial = mc::curSerial + 1;
        if (back.size() > t.size())
            break;
    }
    mc::transitions += 2;
    if (back != t)
        mc::violation(tag + ":decoder:" + name<S>(), "decoder<" + std::string(name<S>()) + "> over an iterator of " + mc::hex(t) + " gives " + mc::hex(back));
}

static void utf8Interfaces(std::u32string_view t)
{
    auto want = enc<char>(t);
    std::string acc;
    for (auto c: t)
    {
        uint8_t b[4] = { 0xEE, 0xEE, 0xEE, 0xEE };
        unsigned n = to_utf8(c, b);
        std::string one(reinterpret_cast<char*>(b), n <= 4 ? n : 0);
        acc += one;
        for (unsigned k = n; k < 4; ++k)
            if (b[k] != 0xEE)
                mc::violation(tag + ":to_utf8-overrun", mc::hexcp(c));
        if (to_utf8(c) != one)
            mc::violation(tag + ":to_utf8(char32_t)", mc::hexcp(c));
    }
    if (acc != want)
        mc::violation(tag + ":to_utf8(char32_t,buf)", mc::hex(t) + " gives " + mc::hex(acc));
    if (to_utf8(std::u32string(t)) != want || to_utf8(t) != want || to_utf8(t.data(), t.size()) != want)
        mc::violation(tag + ":to_utf8(string)", mc::hex(t));
    if (from_utf8<char32_t>(want) != t)
        mc::violation(tag + ":from_utf8", mc::hex(t));
    // bytewise decoder object
    decoder<char> d {};
    std::u32string back;
    for (size_t i = 0; i < want.size(); ++i)
        if (auto c = d(uint8_t(want[i])))
            back += *c;
    if (back != t)
        mc::violation(tag + ":decoder-bytewise", mc::hex(t) + " gives " + mc::hex(back));
    mc::transitions += t.size() + 4;
}

/// The characters of `out` if it consists of well-formed ones that occur in `all` in this order.
template <typename T>
static bool subsequence(Str<T> const& out, std::u32string const& all)
{
    size_t at = 0;
    for (char32_t c: all)
    {
        char32_t const one[] = { c };
        auto const e = enc<T>(std::u32string_view(one, 1));
        if (at < out.size() && out.compare(at, e.size(), e) == 0)
            at += e.size();
    }
    return at == out.size();
}
// Ill-formed input: contained, terminates, the part before the first defect is kept, and (where `all`, the complete characters of the input, is given)
// nothing is delivered that is not one of its characters.
template <typename S, typename T>
static void ill(View<S> placed, std::u32string const& good, std::u32string const* all)
{
    mc::cur("convert_to(ill-formed)", placed.data(), placed.size(), sizeof(S), sizeof(T));
    auto got = convert_to<T>(placed);
    auto want = enc<T>(good);
    if (got.substr(0, want.size()) != want)
        mc::violation(tag + ":" + name<S>() + "->" + name<T>(), mc::hex(placed) + " (" + name<S>() + ") converts to " + mc::hex(got) + " (" + name<T>() + "), which does not begin with the well-formed part " + mc::hex(want));
    Str<T> out;
    convert_to<T>(placed, std::back_inserter(out));
    mc::transitions += 2;
    if constexpr (!std::is_same_v<S, T>)
        if (all && (!subsequence<T>(got, *all) || !subsequence<T>(out, *all)))
            mc::violation(tag + ":invented:" + name<S>() + "->" + name<T>(),
                          mc::hex(placed) + " (" + name<S>() + ") converts to " + mc::hex(got) + " / " + mc::hex(out) + " (" + name<T>() + "), but its characters are " + mc::hex(*all));
    if (out.substr(0, want.size()) != want)
        mc::violation(tag + ":iter:" + name<S>() + "->" + name<T>(), mc::hex(placed) + " via iterator: " + mc::hex(out));
}
template <typename S>
static void illFrom(Str<S> const& s, std::u32string const& good, std::u32string const* all = nullptr)
{
    ++mc::states;
    auto p = place<S>(s);
    ill<S, char>(p, good, all);
    ill<S, char16_t>(p, good, all);
    ill<S, char32_t>(p, good, all);
    ill<S, wchar_t>(p, good, all);
    ++mc::traces;
    if (mc::enough())
        exit(mc::finish());
}

static uint64_t item = 0;
static bool mine() { return mc::mine(item++ >> 4); }

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    gin = new mc::Guarded(1 << 20);
    std::vector<char32_t> const edge { U'A', 0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0xFFFE, 0xFEFF, 0x103FF, 0x10400, 0xFFC00 };
    tag = "scalar";
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::isScalar(c) || !mine())
            continue;
        char32_t one[] = { char32_t(c) };
        std::u32string_view t(one, 1);
        allPairs(t);
        stepwise<char>(t);
        stepwise<char16_t>(t);
        stepwise<char32_t>(t);
        stepwise<wchar_t>(t);
        utf8Interfaces(t);
        if (c < 0x80 && (convert_to<char32_t>(char(c)) != t || convert_to<char16_t>(char(c)) != enc<char16_t>(t) || convert_to<char>(char(c)) != enc<char>(t)))
            mc::violation(tag + ":single-unit-char", mc::hexcp(c));
        if (c < 0x10000 && (convert_to<char>(char16_t(c)) != enc<char>(t) || convert_to<char32_t>(char16_t(c)) != t))
            mc::violation(tag + ":single-unit-char16", mc::hexcp(c));
        if (convert_to<char>(char32_t(c)) != enc<char>(t) || convert_to<char16_t>(char32_t(c)) != enc<char16_t>(t) || convert_to<char32_t>(char32_t(c)) != t)
            mc::violation(tag + ":single-unit-char32", mc::hexcp(c));
        // next to boundary scalars
        {
            size_t step = mc::opt.thorough || c < 0x1000 ? 1 : 4;
            for (size_t k = c % step; k < edge.size(); k += step)
            {
                char32_t tri[] = { edge[k], char32_t(c), edge[(k + 7) % edge.size()] };
                allPairs({ tri, 3 });
                allPairs({ tri, 2 });
            }
        }
    }
    tag = "edge-sequence";
    mc::sequences(int(edge.size()), 0, mc::opt.thorough ? 4 : 3, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::u32string t;
        for (int x: s)
            t += edge[size_t(x)];
        allPairs(t);
        if (!t.empty())
        {
            stepwise<char>(t);
            stepwise<char16_t>(t);
            utf8Interfaces(t);
        }
    });
    tag = "long";
    for (size_t n: { 15u, 16u, 17u, 63u, 64u, 65u, 255u, 256u, 257u, 4096u, 20000u })
        for (size_t k = 0; k < edge.size(); ++k)
        {
            if (!mine())
                continue;
            std::u32string t(n, edge[k]);
            allPairs(t);
            for (size_t i = 0; i < n; ++i)
                t[i] = edge[(i * (k + 1)) % edge.size()];
            allPairs(t);
        }
    // UTF-16: all unit strings over the classes
    tag = "ill-utf16";
    std::vector<char16_t> const u16 { 0x41, 0xE9, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF };
    mc::sequences(int(u16.size()), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::u16string t;
        for (int x: s)
            t += u16[size_t(x)];
        std::u32string good, all;
        bool defect = false;
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (t[i] < 0xD800 || t[i] >= 0xE000)
                all += t[i];
            else if (t[i] < 0xDC00 && i + 1 < t.size() && t[i + 1] >= 0xDC00 && t[i + 1] < 0xE000)
            {
                all += char32_t(0x10000 + ((t[i] - 0xD800) << 10) + (t[i + 1] - 0xDC00));
                ++i;
            }
            else
                defect = true;
            if (!defect)
                good = all;
        }
        illFrom<char16_t>(t, good, &all);
    });
    // UTF-8: all byte strings over the classes
    tag = "ill-utf8";
    std::vector<uint8_t> const u8 { 0x41, 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xF0, 0xF4, 0xA0, 0x90, 0xFF, 0xF8, 0xFC };
    mc::sequences(int(u8.size()), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::string t;
        for (int x: s)
            t += char(u8[size_t(x)]);
        std::u32string good, all;
        bool defect = false;
        for (size_t i = 0; i < t.size();)
        {
            auto n = uref::wellFormed(std::string_view(t).substr(i));
            if (n)
                all += uref::value(std::string_view(t).substr(i), n);
            else
                defect = true;
            if (!defect)
                good = all;
            i += n ? n : 1;
        }
        illFrom<char>(t, good, &all);
        // the decoder over an iterator, which stops at the first byte that does not continue: no character then
        if (!t.empty())
        {
            static size_t const lengths[] = { 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 2, 2, 3, 4 };
            size_t const n = lengths[uint8_t(t[0]) >> 4];
            size_t ok = 1;
            while (ok < n && ok < t.size() && (uint8_t(t[ok]) & 0xC0) == 0x80)
                ++ok;
            if (uint8_t(t[0]) < 0xF8 && n >= 2 && ok < n && ok < t.size())
            {
                auto p = place<char>(std::string_view(t).substr(0, ok + 1));
                auto i = p.begin();
                mc::cur("decoder<char>(iterator), broken", p.data(), p.size(), 1);
                decoder<char> read {};
                ++mc::transitions;
                if (read(i).has_value())
                    mc::violation(tag + ":broken", mc::hex(p) + " is decoded to a character");
            }
        }
    });
    // every single byte / unit / pair of bytes at the end of input
    tag = "ill-tail";
    for (unsigned a = 0; a < 256; ++a)
        for (unsigned b = 0; b < 256; ++b)
        {
            if (!mine())
                continue;
            std::string t { 'k', char(a), char(b) };
            std::u32string good = U"k";
            if (auto n = uref::wellFormed(std::string_view(t).substr(1)))
                good += uref::value(std::string_view(t).substr(1), n);
            illFrom<char>(t, good);
        }
    for (unsigned a = 0; a < 0x10000; ++a)
    {
        if (!mine())
            continue;
        std::u16string t { u'k', char16_t(a) };
        std::u32string good = U"k";
        if (a < 0xD800 || a >= 0xE000)
            good += char32_t(a);
        illFrom<char16_t>(t, good);
    }
    // UTF-32 with non-scalar values
    tag = "ill-utf32";
    std::vector<char32_t> const u32 { 0x41, 0xD800, 0xDFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF, 0xFFFFFFFF, 0x10FFFF };
    mc::sequences(int(u32.size()), 0, 4, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::u32string t;
        for (int x: s)
            t += u32[size_t(x)];
        std::u32string good;
        for (auto c: t)
        {
            if (!mc::isScalar(c))
                break;
            good += c;
        }
        illFrom<char32_t>(t, good);
        illFrom<wchar_t>(std::wstring(t.begin(), t.end()), good);
    });
    mc::sample("U+10000 between U+0041 and U+FFFF through all 16 conversion pairs; D800 0041; E2 82 | end; U+110000 U+0041");
    return mc::finish();
}
