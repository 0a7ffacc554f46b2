// The texts of B01, K01 and I01.
#pragma once
#include "mc.hpp"
#include "t01.hpp"
namespace t01
{
/// With 1: every code point; n: of n neighbouring code points one, shorter byte strings and fewer pumped texts (I01).
template <typename F> inline void enumerateTexts(F&& f, unsigned sparse = 1)
{
    uint64_t item = 0;
    std::vector<std::string> const pieces {
        "a", "Z", "1", " ", "\t", "\n", "\xC3\x9F", "\xCC\x81", "\xCC\xA7", "\xD7\x90", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE0\xA4\xBE", "\xE1\x84\x80", "\xE1\x85\xA1", "\xEA\xB0\x80",
        "\xE2\x80\x8D", "\xEF\xB8\x8E", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xF0\x9F\x87\xA6", "\xF0\x9F\x8F\xBB", "\xD8\x80", "\xFF", "\xC3", "\xE4\xB8", "\xC2\x85", "\xEF\xAC\x81", "\xC7\x84",
        "\xEF\xB7\xBA", "\xF0\x9D\x85\xA0", "\xC4\xB0", "\xF4\x8F\xBF\xBD",
    };
    auto make = [&](std::vector<int> const& s) {
        std::vector<std::string> p;
        for (int i: s)
            p.push_back(pieces[size_t(i)]);
        return t01::text(p);
    };
    mc::sequences(int(pieces.size()), 0, mc::opt.thorough ? 3 : 2, [&](std::vector<int> const& s) {
        if (mc::mine(item++))
            f(make(s));
    });
    // every code point, and values that are none
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c >> 8) || (sparse > 1 && c % sparse != (c / sparse) % sparse))
            continue;
        bool const big = (c >= 0x20000 && c < 0xE0000) || c >= 0xF0000;
        if (big && !mc::opt.thorough && (c & 0xFFFF) < 0xFFF0 && c % 16)
            continue;
        std::u32string const u { char32_t(c), U'a', char32_t(c) };
        f(Text(u, mc::isScalar(c) ? mc::utf8(u) : std::string("\xED\xA0\x80")));
    }
    for (uint32_t c: { 0x110000u, 0x110001u, 0x11FFFFu, 0x120000u, 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0xFFFF0041u, 0x10000041u })
        for (char32_t d: { U'a', U'\u0301', char32_t(0xD800), U'\U0001F600', char32_t(0xFFFFFFFF) })
            if (mc::mine(item++))
            {
                std::u32string const u { char32_t(c), d, char32_t(c) };
                f(Text(u, "\xF4\x90\x80\x80"));
            }
    // all short byte strings over the byte classes, also behind 13 ASCII characters
    std::string const bytes("\x00\x1B" "A\x7F\x80\x9F\xA0\xBF\xC0\xC1\xC2\xDF\xE0\xE4\xED\xEF\xF0\xF3\xF4\xF5\xFF", 21);
    mc::sequences(int(bytes.size()), 1, (mc::opt.thorough ? 4 : 3) - (sparse > 1), [&](std::vector<int> const& s) {
        if (!mc::mine(item++))
            return;
        std::string b;
        for (int i: s)
            b += bytes[size_t(i)];
        f(Text(std::u32string { U'x' }, b));
        if (s.size() < 3)
            for (size_t n: { 13u, 15u, 31u, 62u, 63u })
                f(Text({}, std::string(n, 'a') + b));
    });
    // pumped texts: all pairs of pieces
    for (size_t n: { 15u, 16u, 17u, 31u, 33u, 63u, 64u, 65u, 127u, 129u, 1000u })
        for (size_t p = 0; p < pieces.size(); ++p)
            for (size_t q = 0; q < pieces.size(); ++q)
            {
                if (!mc::mine(item++) || (n == 1000 && q != p) || (!mc::opt.thorough && (p * 7 + q * 3 + n) % 6) || (sparse > 1 && (p + q) % 5))
                    continue;
                std::vector<int> v;
                for (size_t i = 0; i < n; ++i)
                    v.push_back(int(i % 2 ? q : p));
                f(make(v));
            }
}
} // namespace t01
