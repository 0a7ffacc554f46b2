// Reference emoji run segmentation: categories from the Unicode data, tokens by direct matching of the
// emoji sequence grammar (not by a generated scanner), runs by merging tokens.
#pragma once
#include "ucdref.hpp"

#include <cstdint>
#include <string_view>
#include <utility>
#include <vector>
namespace eref
{
enum Cat : int8_t
{
    None, TextPres, EmojiPres, ModBase, Modifier, RI, KeyBase, KeyCap, Slash, Zwj, Vs15, Vs16, TagBase, TagSeq, TagTerm,
    Count
};
inline char const* name(int c)
{
    static char const* n[] = { "None", "TextPres", "EmojiPres", "ModBase", "Modifier", "RI", "KeyBase", "KeyCap",
                               "Slash", "ZWJ", "VS15", "VS16", "TagBase", "TagSeq", "TagTerm" };
    return n[c];
}
inline Cat compute(uint32_t c)
{
    switch (c)
    {
        case 0x20E3: return KeyCap;
        case 0x20E0: return Slash;
        case 0x200D: return Zwj;
        case 0xFE0E: return Vs15;
        case 0xFE0F: return Vs16;
        case 0x1F3F4: return TagBase;
        case 0xE007F: return TagTerm;
        default: break;
    }
    if ((c >= 0xE0030 && c <= 0xE0039) || (c >= 0xE0061 && c <= 0xE007A))
        return TagSeq;
    if (c >= ucd::N)
        return None;
    if (ucd::isEmojiModifierBase(c))
        return ModBase;
    if (ucd::isEmojiModifier(c))
        return Modifier;
    if (c >= 0x1F1E6 && c <= 0x1F1FF)
        return RI;
    if ((c >= '0' && c <= '9') || c == '#' || c == '*')
        return KeyBase;
    if (ucd::isEmojiPresentation(c))
        return EmojiPres;
    if (ucd::isEmoji(c))
        return TextPres;
    return None;
}
inline Cat cat(uint32_t c)
{
    static std::vector<int8_t> t = [] {
        std::vector<int8_t> r(ucd::N);
        for (uint32_t i = 0; i < ucd::N; ++i)
            r[i] = compute(i);
        return r;
    }();
    return c < ucd::N ? Cat(t[c]) : None;
}
inline bool any(Cat c) { return c == TextPres || c == EmojiPres || c == KeyBase || c == ModBase || c == TagBase; }

/// Length and presentation of the token at position i.
template <typename At> // At(i): category, or Count behind the end
std::pair<size_t, bool> token(At at, size_t i)
{
    Cat const c = at(i), d = c == Count ? Count : at(i + 1);
    if (any(c) && d == Vs15)
    {
        // Nothing of the emoji grammar goes on with VS15, so this is the longest match.
        return { 2, false };
    }
    size_t best = 0;
    auto m = [&](size_t n) {
        if (n > best)
            best = n;
    };
    if (c == EmojiPres || c == TagBase || c == ModBase)
        m(1);
    if (any(c) && (d == Vs16 || d == Slash))
        m(2);
    if (c == ModBase && d == Modifier)
        m(2);
    if (c == RI && d == RI)
        m(2);
    if (c == KeyBase && d == Vs16 && at(i + 2) == KeyCap)
        m(3);
    if (c == TagBase && d == TagSeq)
    {
        size_t k = i + 1;
        while (at(k) == TagSeq)
            ++k;
        if (at(k) == TagTerm)
            m(k + 1 - i);
    }
    if (any(c))
    {
        // element (ZWJ element)+ ; an element is never a proper prefix of what may follow it except
        // through its optional second character, so taking that greedily is exact.
        size_t k = i, n = 0;
        while (true)
        {
            Cat e = at(k);
            if (!any(e))
                break;
            size_t w = at(k + 1) == Vs16 || (e == ModBase && at(k + 1) == Modifier) ? 2 : 1;
            if (n > 0)
                m(k + w - i);
            if (w == 2 && n > 0)
                m(k + 1 - i);
            ++n;
            if (at(k + w) != Zwj)
                break;
            k += w + 1;
        }
    }
    return best ? std::pair { best, true } : std::pair { size_t(1), false };
}
struct Run
{
    size_t end;
    bool emoji;
    bool operator==(Run const&) const = default;
};
inline std::vector<Run> runs(std::u32string_view t)
{
    std::vector<Run> r;
    auto at = [&](size_t i) { return i < t.size() ? cat(t[i]) : Count; };
    for (size_t i = 0; i < t.size();)
    {
        auto [n, e] = token(at, i);
        i += n;
        if (!r.empty() && r.back().emoji == e)
            r.back().end = i;
        else
            r.push_back({ i, e });
    }
    return r;
}
inline std::vector<char32_t> alphabet()
{
    // one representative per category, in order
    return { U'a', 0x2639, 0x1F600, 0x1F466, 0x1F3FB, 0x1F1E6, U'1', 0x20E3, 0x20E0, 0x200D, 0xFE0E, 0xFE0F, 0x1F3F4, 0xE0062, 0xE007F };
}
} // namespace eref
