// Reference UTF-8 decoding (Unicode table 3-7): the well-formed characters of a byte string, in order.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
namespace uref
{
/// Length of the well-formed character at the front of s (0 if there is none).
inline unsigned wellFormed(std::string_view s)
{
    auto b = [&](size_t i) { return i < s.size() ? unsigned(uint8_t(s[i])) : 0u; };
    auto in = [&](size_t i, unsigned lo, unsigned hi) { return i < s.size() && b(i) >= lo && b(i) <= hi; };
    if (s.empty()) return 0;
    unsigned const l = b(0);
    if (l < 0x80) return 1;
    if (l >= 0xC2 && l <= 0xDF) return in(1, 0x80, 0xBF) ? 2 : 0;
    if (l >= 0xE0 && l <= 0xEF)
        return in(1, l == 0xE0 ? 0xA0 : 0x80, l == 0xED ? 0x9F : 0xBF) && in(2, 0x80, 0xBF) ? 3 : 0;
    if (l >= 0xF0 && l <= 0xF4)
        return in(1, l == 0xF0 ? 0x90 : 0x80, l == 0xF4 ? 0x8F : 0xBF) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) ? 4 : 0;
    return 0;
}
inline char32_t value(std::string_view s, unsigned n)
{
    auto b = [&](size_t i) { return char32_t(uint8_t(s[i])); };
    switch (n)
    {
        case 1: return b(0);
        case 2: return (b(0) & 0x1F) << 6 | (b(1) & 0x3F);
        case 3: return (b(0) & 0x0F) << 12 | (b(1) & 0x3F) << 6 | (b(2) & 0x3F);
        default: return (b(0) & 0x07) << 18 | (b(1) & 0x3F) << 12 | (b(2) & 0x3F) << 6 | (b(3) & 0x3F);
    }
}
inline std::u32string decode(std::string_view s)
{
    std::u32string r;
    for (size_t i = 0; i < s.size();)
    {
        auto n = wellFormed(s.substr(i));
        if (n)
        {
            r += value(s.substr(i), n);
            i += n;
        }
        else
            ++i;
    }
    return r;
}
} // namespace uref
