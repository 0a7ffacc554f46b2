// C01/C02: bulk UTF-8 -> UTF-32/UTF-16 conversion at one vector width, against the reference decoder.
// usage: c01 wellformed|malformed
#include <libunicode/convert.h>
#include <libunicode/utf8.h>

#include "mc.hpp"
#include "simdstub.hpp"
#include "utf8ref.hpp"

using namespace unicode;

static mc::Guarded* gin;
static mc::Guarded* gout;
static std::string tag;

static std::string shape(std::string_view s)
{
    // pattern of the text with run lengths, e.g. "a15,3,a2"
    std::string r;
    size_t i = 0;
    size_t parts = 0;
    while (i < s.size() && parts++ < 12)
    {
        size_t j = i;
        while (j < s.size() && uint8_t(s[j]) < 0x80)
            ++j;
        if (j > i)
        {
            r += "a" + std::to_string(j - i) + ",";
            i = j;
            continue;
        }
        auto n = uref::wellFormed(s.substr(i));
        r += n ? std::to_string(n) + "," : std::string("x,");
        i += n ? n : 1;
    }
    return r;
}

template <typename Char, typename Fn>
static void runRaw(std::string_view placed, std::basic_string<Char> const& want, Fn fn, char const* name)
{
    // output buffer of exactly one unit per input byte, flush against an inaccessible page
    auto* out = reinterpret_cast<Char*>(gout->atEnd(placed.size() * sizeof(Char)));
    mc::cur(name, placed.data(), placed.size(), 1);
    size_t n = fn(placed.data(), placed.size(), out);
    ++mc::transitions;
    if (n != want.size() || (n && memcmp(out, want.data(), n * sizeof(Char)) != 0))
        mc::violation(tag + ":" + name, "input " + mc::hex(placed) + " (" + shape(placed) + ") " + name + " gives " + std::to_string(n) + " units "
                                            + mc::hex(std::basic_string_view<Char>(out, n <= placed.size() ? n : 0)) + ", expected "
                                            + std::to_string(want.size()) + " units " + mc::hex(want));
}

static void check(std::string const& text, std::u32string const& want32, bool strings = true)
{
    std::u16string want16;
    for (auto c: want32)
        mc::utf16Append(want16, c);
    ++mc::states;
    auto one = [&](std::string_view placed) {
        runRaw<char32_t>(placed, want32, [](auto p, auto n, auto o) { return detail::convert_utf8_to_utf32(p, n, o); }, "convert_utf8_to_utf32");
        runRaw<char16_t>(placed, want16, [](auto p, auto n, auto o) { return detail::convert_utf8_to_utf16(p, n, o); }, "convert_utf8_to_utf16");
        if (strings)
        {
            mc::cur("convert_to<char32_t>", placed.data(), placed.size(), 1);
            auto a = convert_to<char32_t>(placed);
            mc::cur("convert_to<char16_t>", placed.data(), placed.size(), 1);
            auto b = convert_to<char16_t>(placed);
            mc::cur("from_utf8", placed.data(), placed.size(), 1);
            auto c = from_utf8<char32_t>(placed);
            mc::transitions += 3;
            if (a != want32)
                mc::violation(tag + ":convert_to32", "input " + mc::hex(placed) + " convert_to<char32_t> gives " + mc::hex(a) + ", expected " + mc::hex(want32));
            if (b != want16)
                mc::violation(tag + ":convert_to16", "input " + mc::hex(placed) + " convert_to<char16_t> gives " + mc::hex(b) + ", expected " + mc::hex(want16));
            if (c != want32)
                mc::violation(tag + ":from_utf8", "input " + mc::hex(placed) + " from_utf8 gives " + mc::hex(c) + ", expected " + mc::hex(want32));
        }
    };
    one(gin->put(text));
    memcpy(gin->atBegin(), text.data(), text.size());
    one({ gin->atBegin(), text.size() });
    ++mc::traces;
    if (mc::enough())
        exit(mc::finish());
}
static void check(std::u32string const& t, bool strings = true) { check(mc::utf8(t), t, strings); }

static uint64_t item = 0;
static bool mine() { return mc::mine(item++ >> 6); }

/// n distinct-looking ASCII characters (lane mix-ups must be visible); covers all 128 values.
static std::u32string pad(size_t n, unsigned salt)
{
    std::u32string r(n, U'x');
    for (size_t i = 0; i < n; ++i)
        r[i] = char32_t((i * 37 + salt * 11 + (i >> 7) * 5) & 0x7F);
    return r;
}
static std::string pad8(size_t n, unsigned salt)
{
    return mc::utf8(pad(n, salt));
}

static void wellformed()
{
    char32_t const kinds[] = { 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xE9, 0x20AC, 0x1F600 };
    char32_t const len[] = { 0, 0, 0xE9, 0x20AC, 0x1F600 };
    // (1) every scalar value at block-relevant offsets
    tag = "scalar";
    std::vector<size_t> offs { 0, 15, 16, 31, 33, 63, 64 };
    if (mc::opt.thorough)
        offs = { 0, 1, 2, 3, 4, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31, 32, 33, 47, 48, 60, 61, 62, 63, 64, 65, 127, 128 };
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::isScalar(c))
            continue;
        if (!mine())
            continue;
        bool const all = mc::opt.thorough || c < 0x3000 || (c & 0x3F) == 0 || (c & 0x3F) == 0x3F;
        for (size_t k = 0; k < (all ? offs.size() : 1); ++k)
        {
            auto t = pad(offs[k], c);
            t += char32_t(c);
            if (k & 1)
                t += U'!';
            check(t, k == 0 && c < 0x10000);
        }
    }
    // (2) every length, pure ASCII with every value in every lane
    tag = "ascii";
    size_t const maxL = mc::opt.thorough ? 700 : 270;
    for (size_t L = 0; L <= maxL; ++L)
        for (unsigned salt = 0; salt < 128; salt += (mc::opt.thorough || L < 140) ? 1 : 9)
        {
            if (!mine())
                continue;
            check(pad(L, salt), salt == 0);
        }
    // (3) one and two non-ASCII characters at every pair of distances
    tag = "placement";
    size_t const P = mc::opt.thorough ? 200 : 134;
    std::vector<size_t> tails { 0, 1, 15, 16, 17, 33, 64, 65 };
    if (mc::opt.thorough)
        tails = { 0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 130 };
    for (size_t a = 0; a <= P; ++a)
        for (size_t b = 0; b <= P; ++b)
        {
            if (!mine())
                continue;
            for (size_t ti = 0; ti < tails.size(); ++ti)
                for (int k = 2; k <= 4; ++k)
                {
                    if (!mc::opt.thorough && (a + b + ti + size_t(k)) % 3 != 0 && a > 70 && b > 70)
                        continue;
                    auto t = pad(a, unsigned(b));
                    t += len[k];
                    t += pad(b, unsigned(a));
                    t += len[2 + (a + b + ti) % 3];
                    t += pad(tails[ti], 3);
                    check(t, false);
                }
        }
    // (4) all short sequences of character lengths behind every ASCII prefix
    tag = "sequence";
    int const D = mc::opt.thorough ? 7 : 5;
    std::vector<char32_t> alpha { U'k', 0xE9, 0x20AC, 0x1F600 };
    mc::sequences(int(alpha.size()), 1, D, [&](std::vector<int> const& s) {
        for (size_t p = 0; p <= 66; ++p)
        {
            if (!mine())
                continue;
            auto t = pad(p, 1);
            for (int x: s)
                t += alpha[size_t(x)];
            check(t, p == 0);
        }
    });
    // (5) all sequences of boundary scalars
    tag = "boundary-scalars";
    mc::sequences(11, 1, mc::opt.thorough ? 5 : 4, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::u32string t;
        for (int x: s)
            t += kinds[x];
        check(t, true);
    });
    // (6) long texts (pumped)
    tag = "long";
    for (size_t n: { size_t(255), size_t(256), size_t(257), size_t(1000), size_t(1023), size_t(1024), size_t(1025), size_t(4095), size_t(4096), size_t(4097), size_t(16384), size_t(65535), size_t(65536), size_t(65537) })
        for (int k = 1; k <= 4; ++k)
            for (size_t at: { size_t(0), n / 2, n })
            {
                if (!mine())
                    continue;
                auto t = pad(at, 5);
                if (k > 1)
                    t += len[k];
                t += pad(n - at, 9);
                check(t, true);
                std::u32string r;
                for (size_t i = 0; i < n; ++i)
                    r += k > 1 ? len[k] : char32_t('0' + i % 70);
                check(r, true);
                for (size_t i = 0; i < n; i += 3)
                    r[i] = U'q';
                check(r, true);
            }
}

static void malformed()
{
    std::vector<uint8_t> alpha { 0x41, 0x80, 0xA0, 0xBF, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xFF, 0xC0, 0x90, 0x0A, 0xF8 };
    auto doit = [&](std::string const& t, bool strings) { check(t, uref::decode(t), strings); };
    tag = "malformed";
    int const D = mc::opt.thorough ? 6 : 5;
    mc::sequences(int(alpha.size()), 0, D, [&](std::vector<int> const& s) {
        if (!mine())
            return;
        std::string t;
        for (int x: s)
            t += char(alpha[size_t(x)]);
        doit(t, s.size() < 5);
    });
    // embedded at block-relevant places
    tag = "malformed-embedded";
    std::vector<size_t> pre { 1, 13, 14, 15, 16, 29, 31, 32, 61, 62, 63, 64, 65 }, post { 0, 1, 15, 16, 32, 64 };
    mc::sequences(int(alpha.size()), 1, mc::opt.thorough ? 4 : 3, [&](std::vector<int> const& s) {
        std::string t;
        for (int x: s)
            t += char(alpha[size_t(x)]);
        for (auto a: pre)
            for (auto b: post)
            {
                if (!mine())
                    continue;
                doit(pad8(a, 2) + t + pad8(b, 7), false);
            }
    });
    // every byte value behind every pending prefix, followed by a complete character
    tag = "malformed-byte";
    std::vector<std::string> prefixes { "", "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xE0", "\xED", "\xF4", "\xC0", "\xF5", "\xED\xA0", "\xE0\x80", "\xF4\x90", "\xF8", "\x80" };
    std::vector<std::string> suffixes { "", "z", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x80", "\x80z", "\x80\x80z", "\x80\x80\x80z" };
    for (auto& p: prefixes)
        for (int b = 0; b < 256; ++b)
            for (int b2 = 0; b2 < 256; ++b2)
            {
                if (!mine())
                    continue;
                for (auto& s: suffixes)
                    doit(p + char(b) + char(b2) + s, false);
            }
    // pumped: n bytes of one kind between complete characters
    tag = "malformed-long";
    for (auto b: alpha)
        for (size_t n: { 1u, 2u, 3u, 5u, 15u, 16u, 17u, 63u, 64u, 65u, 255u, 256u, 257u, 1000u, 4096u, 65537u })
            for (auto& p: prefixes)
            {
                if (!mine())
                    continue;
                doit(p + std::string(n, char(b)) + "y\xE2\x82\xAC", true);
                doit("\xC3\xA9" + std::string(n, 'u') + p + std::string(n, char(b)), true);
            }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (!mc::simdUsable())
    {
        mc::note("vector width " + std::string(getenv("MC_SIMD")) + " is not supported by this CPU: not explored");
        return mc::finish();
    }
    gin = new mc::Guarded(1 << 20);
    gout = new mc::Guarded(4 << 20);
    if (mc::opt.args.at(0) == "wellformed")
        wellformed();
    else
        malformed();
    mc::sample("vector width " + std::string(getenv("MC_SIMD") ? getenv("MC_SIMD") : "default") + ": pad(15) U+20AC pad(64) U+1F600 pad(1); E2 82 41; F4 90 80 80 7A");
    return mc::finish();
}
