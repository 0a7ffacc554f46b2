// D03: the name of every code point against DerivedName.txt, itself checked against UnicodeData.txt.
#include "mc.hpp"
#include "ucdref.hpp"
#include <libunicode/codepoint_properties.h>
using namespace unicode;

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::vector<std::string> want(ucd::N);
    ucd::lines("extracted/DerivedName.txt", [&](auto const& f) {
        auto g = ucd::range(f[0]);
        for (uint32_t c = g.a; c <= g.b; ++c)
            want[c] = f[1];
    });
    // the reference: every name of UnicodeData.txt that is not a range or a control label is the derived one
    uint64_t checked = 0;
    auto const& d = ucd::data();
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        auto const& n = d.name[c];
        if (n.empty() || n[0] == '<')
            continue;
        auto w = want[c];
        if (!w.empty() && w.back() == '*')
        {
            char b[16];
            snprintf(b, sizeof b, "%04X", c);
            w = w.substr(0, w.size() - 1) + b;
        }
        if (w != n)
        {
            fprintf(stderr, "DerivedName.txt and UnicodeData.txt disagree at %04X\n", c);
            return 2;
        }
        ++checked;
    }
    if (mc::opt.shard == 0)
        mc::note("the reference names agree with UnicodeData.txt for " + std::to_string(checked) + " code points");
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 8))
            continue;
        mc::cur("codepoint_properties::name", &c, 1, 4);
        auto got = codepoint_properties::name(c);
        mc::states++;
        mc::transitions++;
        if (got != want[c])
            mc::violation("name-" + std::to_string(c >> 16), "name(" + mc::hexcp(c) + ") = \"" + std::string(got) + "\", Unicode data: \"" + want[c] + "\"");
    }
    uint32_t dummy = 0;
    uint64_t beyond = 0;
    auto probe = [&](uint32_t c) {
        ++beyond;
        if (!codepoint_properties::name(c).empty())
            mc::violation("name-beyond-unicode", "name(" + mc::hexcp(c) + ") = \"" + std::string(codepoint_properties::name(c)) + "\"");
    };
    uint64_t top = mc::factsOnly ? ucd::N + 0x1000 : uint64_t(1) << 32;
    for (uint64_t c = ucd::N + mc::opt.shard; c < top; c += mc::opt.shards)
    {
        if ((c & 0xFFFFF) < mc::opt.shards)
        {
            dummy = uint32_t(c);
            mc::cur("codepoint_properties::name(beyond Unicode)", &dummy, 1, 4);
        }
        probe(uint32_t(c));
    }
    for (int64_t k = 0; k < 0x120000; ++k)
        probe(uint32_t(0xFFFFFFFFu - k));
    mc::traces = mc::states + beyond;
    mc::extra["values beyond Unicode"] = beyond;
    mc::sample("U+1F468: " + std::string(codepoint_properties::name(0x1F468)));
    return mc::finish();
}
