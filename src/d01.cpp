// D01: the code point property record of every code point (and of values beyond) against the Unicode data.
#include "mc.hpp"
#include "ucdref.hpp"
#include "emojiref.hpp"
#include "enumnames.hpp"
#include <libunicode/codepoint_properties.h>
using namespace unicode;

template <typename E> static std::vector<E> column(ucd::Enum const& u, enumnames::Map<E> const& m)
{
    std::vector<E> id;
    for (auto& n: u.names)
    {
        bool ok = false;
        for (auto& [k, v]: m)
            if (k == n && !ok)
            {
                id.push_back(v);
                ok = true;
            }
        if (!ok)
        {
            fprintf(stderr, "no enumerator for %s\n", n.c_str());
            exit(2);
        }
    }
    std::vector<E> r(ucd::N);
    for (uint32_t c = 0; c < ucd::N; ++c)
        r[c] = id[u.v[c]];
    return r;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    auto sc = column(ucd::script(), enumnames::script());
    auto gcb = column(ucd::gcb(), enumnames::gcb());
    auto wb = column(ucd::wb(), enumnames::wb());
    auto incb = column(ucd::incb(), enumnames::incb());
    auto gc = column(ucd::gc(), enumnames::gc());
    auto age = column(ucd::age(), enumnames::age());
    // East Asian width: what the file lists; the record's documented default (Narrow) elsewhere
    auto listed = ucd::loadEnum("-", "EastAsianWidth.txt");
    static std::map<std::string, East_Asian_Width> const ea = {
        { "A", East_Asian_Width::Ambiguous }, { "F", East_Asian_Width::Fullwidth }, { "H", East_Asian_Width::Halfwidth }, { "N", East_Asian_Width::Neutral },
        { "Na", East_Asian_Width::Narrow }, { "W", East_Asian_Width::Wide }, { "-", East_Asian_Width::Narrow }
    };
    std::vector<East_Asian_Width> eaw(ucd::N);
    for (uint32_t c = 0; c < ucd::N; ++c)
        eaw[c] = ea.at(listed[c]);
    auto const& em = ucd::emoji();
    auto const &e1 = em.at("Emoji"), &e2 = em.at("Emoji_Presentation"), &e3 = em.at("Emoji_Component"), &e4 = em.at("Emoji_Modifier"),
               &e5 = em.at("Emoji_Modifier_Base"), &e6 = em.at("Extended_Pictographic");
    auto const& ge = ucd::core().at("Grapheme_Extend");
    auto const& vb = ucd::variationBases();
    // segmentation categories as documented by the enumeration's names
    static EmojiSegmentationCategory const cats[eref::Count] = {
        EmojiSegmentationCategory::Invalid, EmojiSegmentationCategory::EmojiTextPresentation, EmojiSegmentationCategory::EmojiEmojiPresentation,
        EmojiSegmentationCategory::EmojiModifierBase, EmojiSegmentationCategory::EmojiModifier, EmojiSegmentationCategory::RegionalIndicator,
        EmojiSegmentationCategory::KeyCapBase, EmojiSegmentationCategory::CombiningEnclosingKeyCap,
        EmojiSegmentationCategory::CombiningEnclosingCircleBackslash, EmojiSegmentationCategory::ZWJ, EmojiSegmentationCategory::VS15,
        EmojiSegmentationCategory::VS16, EmojiSegmentationCategory::TagBase, EmojiSegmentationCategory::TagSequence, EmojiSegmentationCategory::TagTerm
    };
    auto bad = [](char const* what, uint32_t c, std::string const& got, std::string const& want) {
        mc::violation(std::string("record-") + what, std::string("codepoint_properties::get(") + mc::hexcp(c) + ")." + what + " = " + got + ", Unicode data: " + want);
    };
    uint64_t fields = 0;
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 8))
            continue;
        mc::cur("codepoint_properties::get", &c, 1, 4);
        auto const p = codepoint_properties::get(c);
        mc::states++;
#define ENUM(field, table, map)                                                                        \
    ++fields;                                                                                          \
    if (p.field != table[c])                                                                           \
        bad(#field, c, enumnames::nameOf(enumnames::map(), p.field), enumnames::nameOf(enumnames::map(), table[c]));
        ENUM(script, sc, script)
        ENUM(grapheme_cluster_break, gcb, gcb)
        ENUM(word_break, wb, wb)
        ENUM(indic_conjunct_break, incb, incb)
        ENUM(general_category, gc, gc)
        ENUM(age, age, age)
#undef ENUM
#define FLAG(f, want)                                                      \
    ++fields;                                                              \
    if (p.f() != bool(want))                                               \
        bad(#f, c, std::to_string(p.f()), std::to_string(bool(want)));
        FLAG(is_emoji, e1[c])
        FLAG(is_emoji_presentation, e2[c])
        FLAG(is_emoji_component, e3[c])
        FLAG(is_emoji_modifier, e4[c])
        FLAG(is_emoji_modifier_base, e5[c])
        FLAG(is_extended_pictographic, e6[c])
        FLAG(is_core_grapheme_extend, ge[c])
        FLAG(is_emoji_variation_base, vb[c])
        FLAG(is_virama, ucd::isVirama(c))
#undef FLAG
        ++fields;
        if (p.east_asian_width != eaw[c])
            bad("east_asian_width", c, std::to_string(int(p.east_asian_width)), listed[c] == "-" ? "unlisted (Narrow)" : listed[c]);
        ++fields;
        if (p.emoji_segmentation_category != cats[eref::cat(c)])
            bad("emoji_segmentation_category", c, std::to_string(int(p.emoji_segmentation_category)), eref::name(eref::cat(c)));
    }
    mc::transitions = fields;
    // Values beyond Unicode: safe, and the record of the fallback index (U+0000).
    auto const zero = codepoint_properties::get(0);
    uint64_t beyond = 0;
    auto probe = [&](uint32_t c) {
        ++beyond;
        if (!(codepoint_properties::get(c) == zero))
            bad("beyond-unicode", c, "a record differing from that of U+0000", "the fallback record");
    };
    uint32_t dummy = 0;
    mc::cur("codepoint_properties::get(beyond Unicode)", &dummy, 1, 4);
    uint64_t top = mc::factsOnly ? ucd::N + 0x1000 : uint64_t(1) << 32;
    for (uint64_t c = ucd::N + mc::opt.shard; c < top; c += mc::opt.shards)
    {
        if ((c & 0xFFFFF) < mc::opt.shards)
        {
            dummy = uint32_t(c);
            mc::cur("codepoint_properties::get(beyond Unicode)", &dummy, 1, 4);
        }
        probe(uint32_t(c));
    }
    for (int b = 20; b < 32; ++b)
        for (int64_t d = -600; d <= 600; ++d)
        {
            int64_t c = (int64_t(1) << b) + d;
            if (c >= int64_t(ucd::N) && c <= 0xFFFFFFFFll)
                probe(uint32_t(c));
        }
    for (int64_t d = 0; d < 0x120000; ++d)
        probe(uint32_t(0xFFFFFFFFu - d));
    mc::traces = mc::states + beyond;
    mc::extra["values beyond Unicode"] = beyond;
    if (mc::opt.shard == 0)
    {
        mc::sample("U+1F468: " + enumnames::nameOf(enumnames::gc(), codepoint_properties::get(0x1F468).general_category));
        mc::sample("U+094D is_virama: " + std::to_string(codepoint_properties::get(0x94D).is_virama()));
    }
    return mc::finish();
}
