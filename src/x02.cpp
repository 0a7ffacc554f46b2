// X02: the column width of every code point against the documented rules.
#include "mc.hpp"
#include "ucdref.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/width.h>
using namespace unicode;

/// the documented rules, from the Unicode data
static unsigned expected(uint32_t c)
{
    if (c == 0xAD)
        return 1; // SOFT HYPHEN is drawn
    auto const& h = ucd::hangul()[c];
    if (h == "V" || h == "T")
        return 0; // conjoining vowels and trailing consonants
    auto const& g = ucd::gc()[c];
    if (g == "Cf")
        return ucd::gcb().is(c, "Prepend") ? 1 : 0; // rendered format characters
    if (g == "Cc" || g == "Me" || g == "Mn" || g == "Mc" || g == "Zl" || g == "Zp" || g == "Cs")
        return 0;
    if (ucd::isEmojiPresentation(c))
        return 2;
    auto const& w = ucd::eaw()[c];
    return w == "W" || w == "F" ? 2 : 1;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    uint64_t hist[3] = {};
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 8))
            continue;
        mc::cur("width", &c, 1, 4);
        unsigned want = expected(c), got = width(c), rec = codepoint_properties::get(c).char_width;
        char32_t const one[1] = { c };
        unsigned cl = grapheme_cluster_width(std::u32string_view(one, 1));
        mc::states++;
        mc::transitions += 3;
        hist[want]++;
        std::string key = "width-" + ucd::gc()[c] + "-" + ucd::eaw()[c];
        if (got != want)
            mc::violation(key, "width(" + mc::hexcp(c) + ") = " + std::to_string(got) + ", documented " + std::to_string(want));
        if (rec != want)
            mc::violation("record-" + key, "codepoint_properties::get(" + mc::hexcp(c) + ").char_width = " + std::to_string(rec) + ", documented " + std::to_string(want));
        if (cl != want)
            mc::violation("cluster-" + key, "grapheme_cluster_width(" + mc::hexcp(c) + ") = " + std::to_string(cl) + ", documented " + std::to_string(want));
    }
    // beyond Unicode: defined (0, 1 or 2) and safe
    uint32_t dummy = 0;
    uint64_t top = mc::factsOnly ? ucd::N + 0x1000 : uint64_t(1) << 32, beyond = 0;
    unsigned const zero = width(0);
    auto probe = [&](uint32_t c) {
        ++beyond;
        if (width(c) != zero)
            mc::violation("beyond-unicode", "width(" + mc::hexcp(c) + ") = " + std::to_string(width(c)) + ", that of the fallback record is " + std::to_string(zero));
    };
    for (uint64_t c = ucd::N + mc::opt.shard; c < top; c += mc::opt.shards)
    {
        if ((c & 0xFFFFF) < mc::opt.shards)
        {
            dummy = uint32_t(c);
            mc::cur("width(beyond Unicode)", &dummy, 1, 4);
        }
        probe(uint32_t(c));
    }
    for (int64_t d = 0; d < 0x120000; ++d)
        probe(uint32_t(0xFFFFFFFFu - d));
    mc::traces = mc::states + beyond;
    mc::extra["values beyond Unicode"] = beyond;
    for (int i = 0; i < 3; ++i)
        mc::extra["code points of width " + std::to_string(i)] = hist[i];
    return mc::finish();
}
