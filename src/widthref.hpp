// The documented cluster width rules (width.h), twice: as a whole-sequence reading in the style of
// wcwidth's wcswidth() and as an incremental automaton. Inputs are classes of independently parsed
// Unicode data.
#pragma once
#include "graphref.hpp"

namespace wref
{
/// the documented column width of a single code point (X02)
inline unsigned charWidth(uint32_t c)
{
    if (c >= ucd::N)
        c = 0; // the table's fallback record
    if (c == 0xAD)
        return 1;
    auto const& h = ucd::hangul()[c];
    if (h == "V" || h == "T")
        return 0;
    auto const& g = ucd::gc()[c];
    if (g == "Cf")
        return ucd::gcb().is(c, "Prepend") ? 1 : 0;
    if (g == "Cc" || g == "Me" || g == "Mn" || g == "Mc" || g == "Zl" || g == "Zp" || g == "Cs")
        return 0;
    if (ucd::isEmojiPresentation(c))
        return 2;
    auto const& w = ucd::eaw()[c];
    return w == "W" || w == "F" ? 2 : 1;
}
enum Special : uint8_t { Plain, ZWJ, VS15, VS16, Modifier };
struct C
{
    uint8_t w = 0;
    bool virama = false, mc = false, joins = false, ri = false, varbase = false;
    uint8_t special = Plain;
    auto tie() const { return std::tuple(w, virama, mc, joins, ri, varbase, special); }
    bool operator<(C const& o) const { return tie() < o.tie(); }
    bool operator==(C const& o) const { return tie() == o.tie(); }
    std::string name() const
    {
        std::string r = "w" + std::to_string(w);
        if (virama) r += "+virama";
        if (mc) r += "+Mc";
        if (ri) r += "+RI";
        else if (joins) r += "+pict";
        if (varbase) r += "+varbase";
        static char const* s[] = { "", "+ZWJ", "+VS15", "+VS16", "+modifier" };
        return r + s[special];
    }
};
inline std::vector<C> const& table()
{
    static std::vector<C> t = [] {
        std::vector<C> r(ucd::N);
        for (uint32_t c = 0; c < ucd::N; ++c)
        {
            C& x = r[c];
            x.w = uint8_t(charWidth(c));
            x.virama = ucd::isVirama(c);
            x.mc = ucd::gc().is(c, "Mc");
            x.ri = ucd::gcb().is(c, "Regional_Indicator");
            x.joins = x.ri || ucd::isExtPic(c);
            x.varbase = ucd::variationBases()[c];
            x.special = c == 0x200D ? ZWJ : c == 0xFE0E ? VS15 : c == 0xFE0F ? VS16 : c >= 0x1F3FB && c <= 0x1F3FF ? Modifier : Plain;
        }
        return r;
    }();
    return t;
}
inline C cls(char32_t c) { return table()[c < ucd::N ? c : 0]; }

/// first reading: the whole cluster at once
inline unsigned ofCluster(std::u32string_view t)
{
    long closed = 0, open = 0;
    long base = -1; // index of the code point measured last
    bool canModify = false, conjunct = false, zeroed = false;
    size_t i = 0;
    while (i < t.size())
    {
        C const c = cls(t[i]);
        C const b = base >= 0 ? cls(t[size_t(base)]) : cls(0);
        size_t flags = 0;
        while (flags < i && cls(t[i - 1 - flags]).ri)
            ++flags;
        size_t step = 1;
        if (c.special == ZWJ)
        {
            if (!conjunct)
            {
                step = 2; // consumes the code point that follows
                zeroed = true;
            }
        }
        else if (c.special == VS16 && canModify)
        {
            if (b.varbase && b.w == 1)
                open = 2;
            canModify = false;
        }
        else if (c.special == VS15 && canModify)
        {
            // a flag's second half becomes the base but leaves the recorded width alone (a flag is 2 wide)
            if (b.varbase && !zeroed && b.w == 2)
                --closed;
        }
        else if (c.ri && flags % 2 == 1)
            base = long(i);
        else if (c.special == Modifier && b.joins)
            ;
        else if (c.w)
        {
            if (conjunct)
                open = 2;
            else
            {
                closed += open;
                open = c.w;
            }
            base = long(i);
            zeroed = false;
            canModify = true;
            conjunct = false;
        }
        else if (c.virama)
            conjunct = true;
        else
        {
            if (c.mc && canModify)
            {
                open = 2;
                canModify = false;
            }
            conjunct = false;
        }
        i += step;
    }
    return unsigned(std::max(0L, closed + open));
}

/// second reading: one code point at a time
struct State
{
    C last;              // class of the code point measured last
    uint8_t lastWidth = 0;
    bool open = false, virama = false, skip = false, oddFlags = false;
    long total = 0, current = 0;
    auto tie() const { return std::tuple(last.tie(), lastWidth, open, virama, skip, oddFlags, current); }
    bool sameBut(State const& o) const { return tie() == o.tie(); }
    State() { last = cls(0); }
    unsigned width() const { return unsigned(std::max(0L, total + current)); }
    void push(C const& c)
    {
        bool const second = oddFlags && c.ri;
        oddFlags = c.ri && !oddFlags;
        if (skip)
            skip = false;
        else if (c.special == ZWJ)
        {
            if (!virama)
            {
                skip = true;
                lastWidth = 0;
            }
        }
        else if (c.special == VS16 && open)
        {
            if (last.varbase && last.w == 1)
                current = 2;
            open = false;
        }
        else if (c.special == VS15 && open)
        {
            if (last.varbase && lastWidth == 2)
                --total;
        }
        else if (second)
            last = c;
        else if (c.special == Modifier && last.joins)
            ;
        else if (c.w)
        {
            if (virama)
                current = 2;
            else
            {
                total += current;
                current = c.w;
            }
            last = c;
            lastWidth = c.w;
            open = true;
            virama = false;
        }
        else if (c.virama)
            virama = true;
        else
        {
            if (c.mc && open)
            {
                current = 2;
                open = false;
            }
            virama = false;
        }
    }
};
/// text width: the sum over its grapheme clusters
inline unsigned ofText(std::u32string_view t)
{
    auto b = gref::boundaries(t);
    unsigned r = 0;
    for (size_t i = 0; i < b.size(); ++i)
    {
        size_t e = i + 1 < b.size() ? b[i + 1] : t.size();
        r += ofCluster(t.substr(b[i], e - b[i]));
    }
    return r;
}
} // namespace wref
