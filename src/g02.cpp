// G02: the grapheme interfaces tile the text and agree (UTF-32 iterator, UTF-8 iterator, C counting).
#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>

#include "graphref.hpp"
#include "mc.hpp"
#include "utf8ref.hpp"

using namespace unicode;
using Clusters = std::vector<std::u32string>;

static std::string show(Clusters const& c)
{
    std::string r;
    size_t n = 0;
    for (auto& s: c)
    {
        r += "[" + mc::hex(s) + "]";
        if (++n > 20)
            return r + "...(" + std::to_string(c.size()) + ")";
    }
    return r;
}
static Clusters reference(std::u32string_view t)
{
    Clusters r;
    auto b = gref::boundaries(t);
    for (size_t i = 0; i < b.size(); ++i)
        r.emplace_back(t.substr(b[i], (i + 1 < b.size() ? b[i + 1] : t.size()) - b[i]));
    return r;
}

static mc::Guarded g32(1 << 20), g8(1 << 20);

static void u32(std::u32string_view t, Clusters const& want)
{
    auto in = g32.put32(t);
    mc::cur("grapheme_segmenter", in.data(), in.size(), 4);
    mc::traces++;
    Clusters got;
    size_t pos = 0;
    bool tiled = true;
    size_t const limit = t.size() + 2;
    {
        grapheme_segmenter s(in);
        for (size_t guard = 0;; ++guard)
        {
            auto v = *s;
            if (!t.empty() || !v.empty())
            {
                got.emplace_back(v);
                tiled = tiled && v.data() == in.data() + pos && !v.empty();
                pos += v.size();
            }
            if (bool(s) != s.codepointsAvailable())
                mc::violation("u32-bool", "operator bool and codepointsAvailable differ on " + mc::hex(t));
            if (!s.codepointsAvailable())
                break;
            if (guard > limit)
            {
                mc::violation("u32-endless", "UTF-32 iteration does not end on " + mc::hex(t));
                return;
            }
            auto const before = s;
            ++s;
            auto again = before;
            ++again;
            if (!(before == before) || before == s || s == before || !(again == s) || *again != *s)
                mc::violation("u32-equal", "comparison of segmenters does not tell their positions on " + mc::hex(t));
        }
        // beyond the end: nothing more, and equal to a finished one
        ++s;
        if (!(*s).empty() || s.codepointsAvailable())
            mc::violation("u32-past-end", "incrementing a finished segmenter yields " + mc::hex(*s) + " on " + mc::hex(t));
        if (!(s == grapheme_segmenter(in.data() + in.size(), in.data() + in.size())) || !(s == grapheme_segmenter()))
            mc::violation("u32-end-equal", "finished segmenter does not equal an empty one on " + mc::hex(t));
    }
    if (got != want || !tiled || pos != t.size())
        mc::violation("u32-clusters", "UTF-32 clusters of " + mc::hex(t) + " are " + show(got) + " expected " + show(want));
    if (!t.empty())
    {
        // driving it as a range loop does: for (s; s; ++s) delivers all but the last
        grapheme_segmenter a(in.data(), in.data() + in.size()), b(in);
        if (!(a == b) || *a != *b)
            mc::violation("u32-constructors", "pointer and view constructors differ on " + mc::hex(t));
    }
    mc::cur("u32_gc_count", in.data(), in.size(), 4);
    int n = u32_gc_count(reinterpret_cast<u32_char_t const*>(in.data()), in.size());
    if (n != int(want.size()))
        mc::violation("u32_gc_count", "u32_gc_count(" + mc::hex(t) + ") = " + std::to_string(n) + " expected " + std::to_string(want.size()));
    if (t.size() == 2)
    {
        bool two = want.size() == 1;
        if ((u32_grapheme_unbreakable(t[0], t[1]) != 0) != two)
            mc::violation("u32_grapheme_unbreakable", "u32_grapheme_unbreakable(" + mc::hex(t) + ") is not " + (two ? "1" : "0"));
    }
}

static bool iterate8(std::string_view in, Clusters& got)
{
    auto seg = utf8_grapheme_segmenter(in);
    auto i = seg.begin();
    auto const e = seg.end();
    size_t const limit = in.size() + 2;
    size_t n = 0;
    while (i != e)
    {
        if (n++ > limit)
        {
            mc::violation("u8-endless", "UTF-8 iteration does not end on " + mc::hex(in));
            return false;
        }
        got.push_back(*i);
        if (i.value() != *i || !(i == i))
            mc::violation("u8-value", "value() differs from operator* on " + mc::hex(in));
        if (n % 2)
            ++i;
        else
        {
            auto old = i++;
            if (*old != got.back())
                mc::violation("u8-postincrement", "post-increment does not return the previous cluster on " + mc::hex(in));
        }
    }
    if (!(*i).empty())
        mc::violation("u8-end-value", "end iterator holds " + mc::hex(*i) + " on " + mc::hex(in));
    ++i;
    if (i != e || !(*i).empty())
        mc::violation("u8-past-end", "incrementing the end iterator moves it on " + mc::hex(in));
    return true;
}

static void u8(std::u32string_view t, Clusters const& want)
{
    for (char32_t c: t)
        if (!mc::isScalar(c))
            return;
    auto in = g8.put(mc::utf8(t));
    mc::cur("utf8_grapheme_segmenter", in.data(), in.size(), 1);
    mc::traces++;
    Clusters got;
    if (!iterate8(in, got))
        return;
    if (got != want)
        mc::violation("u8-clusters", "UTF-8 clusters of " + mc::hex(t) + " are " + show(got) + " expected " + show(want));
    mc::cur("u8_gc_count", in.data(), in.size(), 1);
    int n = u8_gc_count(in.data(), in.size());
    if (n != int(want.size()))
        mc::violation("u8_gc_count", "u8_gc_count(" + mc::hex(t) + ") = " + std::to_string(n) + " expected " + std::to_string(want.size()));
}
static void check(std::u32string_view t)
{
    auto want = reference(t);
    mc::states++;
    mc::transitions += t.size();
    u32(t, want);
    u8(t, want);
}

static std::u32string collapse(std::u32string_view s)
{
    std::u32string r;
    for (char32_t c: s)
        if (c != 0xFFFD || r.empty() || r.back() != 0xFFFD)
            r += c;
    return r;
}
static void malformed(std::string const& b)
{
    std::u32string ref;
    for (size_t i = 0; i < b.size();)
    {
        auto sub = std::string_view(b).substr(i);
        auto w = uref::wellFormed(sub);
        ref += w ? uref::value(sub, w) : char32_t(0xFFFD);
        i += w ? w : 1;
    }
    auto in = g8.put(b);
    mc::cur("utf8_grapheme_segmenter(malformed)", in.data(), in.size(), 1);
    mc::traces++;
    mc::states++;
    Clusters got;
    if (!iterate8(in, got))
        return;
    std::u32string flat;
    bool empty = false;
    for (auto& c: got)
    {
        flat += c;
        empty = empty || c.empty();
    }
    if (empty)
        mc::violation("u8-malformed-empty", "empty cluster in " + mc::hex(b) + ": " + show(got));
    if (collapse(flat) != collapse(ref))
        mc::violation("u8-malformed-text", "UTF-8 clusters of " + mc::hex(b) + " are " + show(got) + ", the characters are " + mc::hex(collapse(ref)));
    else if (got != reference(flat))
        mc::violation("u8-malformed-clusters", "UTF-8 clusters of " + mc::hex(b) + " are " + show(got) + " expected " + show(reference(flat)));
    mc::cur("u8_gc_count(malformed)", in.data(), in.size(), 1);
    (void) u8_gc_count(in.data(), in.size());
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    size_t lines = gref::selfCheck();
    if (mc::opt.shard == 0)
        mc::note("reference agrees with all " + std::to_string(lines) + " lines of GraphemeBreakTest.txt");
    auto A = gref::alphabet(false);
    A.push_back(0);
    A.push_back(0xFFFD);
    uint64_t item = 0;
    mc::extra["alphabet"] = A.size();
    mc::sequences(int(A.size()), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        char32_t b[8];
        for (size_t i = 0; i < s.size(); ++i)
            b[i] = A[size_t(s[i])];
        check(std::u32string_view(b, s.size()));
    });
    for (char32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c) || mc::enough())
            continue;
        for (char32_t x: { U'a', char32_t(0x0301), char32_t(0x0600), char32_t(0x1100), char32_t(0x1F600), char32_t(0x0915), char32_t(0x1F1E6), char32_t(0) })
        {
            char32_t t[] = { c, x, c };
            check(std::u32string_view(t, 1));
            check(std::u32string_view(t, 2));
            check(std::u32string_view(t, 3));
        }
    }
    // values beyond Unicode: the text is still tiled and counted consistently
    for (char32_t c: { 0x110000u, 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
        for (char32_t x: { U'a', char32_t(0x0301), char32_t(0x1F600), c })
        {
            char32_t t[] = { x, c, x, c, x };
            std::u32string_view v(t, 5);
            size_t n = 0, len = 0;
            mc::cur("grapheme_segmenter(beyond)", t, 5, 4);
            grapheme_segmenter s(v);
            while (true)
            {
                if ((*s).empty() || (*s).data() != t + len)
                    mc::violation("u32-beyond", "clusters do not tile " + mc::hex(v));
                ++n, len += (*s).size();
                if (!s.codepointsAvailable() || n > 6)
                    break;
                ++s;
            }
            if (len != 5 || u32_gc_count(reinterpret_cast<u32_char_t const*>(t), 5) != int(n))
                mc::violation("u32-beyond", "clusters do not tile " + mc::hex(v));
        }
    // pumped texts: long clusters, many clusters
    std::u32string_view const per[] = { U"a", U"\u0301", U"a\u0301", U"\u200d", U"\U0001F1E6", U"\U0001F468\u200d", U"\u0915\u094d", U"\u094d", U"\u1100", U"\u1161", U"\r\n", U"\u0600", U"\u0903", U"\uac00", U"\U0001F468" };
    std::vector<int> counts;
    for (int n = 1; n <= 70; ++n)
        counts.push_back(n);
    for (int n: { 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 4097, 65535, 65536, 65537, 70000 })
        counts.push_back(n);
    for (auto pre: { U"", U"a", U"\U0001F468", U"\u0915", U"\u0600" })
        for (auto p: per)
            for (int n: counts)
            {
                if (!mc::mine(item++) || mc::enough())
                    continue;
                std::u32string t = pre;
                for (int i = 0; i < n; ++i)
                    t += p;
                t += U"\U0001F468\u0915b";
                check(t);
            }
    // malformed UTF-8 between and inside complete characters
    std::vector<std::string> const B { "a", "\xCC\x81", "\xE1\x84\x80", "\xF0\x9F\x87\xA6", "\xF0\x9F\x91\xA8", "\xE2\x80\x8D", std::string(1, '\0'),
                                       "\x80", "\xC3", "\xE1\x84", "\xF0\x9F\x91", "\xFF", "\xED\xA0\x80", "\xC0\x80", "\xF4\x90\x80\x80", "\xE0\x80" };
    mc::sequences(int(B.size()), 1, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::string b;
        for (int i: s)
            b += B[size_t(i)];
        malformed(b);
    });
    // every byte behind every pending prefix, followed by a complete character
    for (std::string pre: { "", "a", "\xC3", "\xE1", "\xE1\x84", "\xF0", "\xF0\x9F", "\xF0\x9F\x91", "\xE0", "\xED", "\xF4", "\xE0\xA0" })
        for (int x = 0; x < 256; ++x)
            for (int y = -1; y < 256; ++y)
                for (std::string suf: { "", "b", "\xCC\x81", "\xF0\x9F\x91\xA8" })
                {
                    if (!mc::mine(item++) || mc::enough())
                        continue;
                    malformed(pre + char(x) + (y < 0 ? std::string() : std::string(1, char(y))) + suf);
                }
    mc::sample("e.g. clusters of U+0061 U+0301 U+0062: " + show(reference(U"a\u0301b")));
    return mc::finish();
}
