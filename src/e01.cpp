// E01: the real emoji segmenter against direct matching of the emoji grammar.
#include <libunicode/emoji_segmenter.h>

#include "emojiref.hpp"
#include "mc.hpp"
using namespace unicode;

static mc::Guarded g(1 << 20);
static emoji_segmenter used; // assigned over and over, never re-created
static std::string show(std::vector<eref::Run> const& v)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < 30; ++i)
        r += (i ? " " : "") + std::to_string(v[i].end) + (v[i].emoji ? "E" : "T");
    return r;
}
static std::string key(std::u32string_view t)
{
    std::string r;
    for (size_t i = 0; i < t.size() && i < 7; ++i)
        r += std::string(r.empty() ? "" : "<") + eref::name(eref::cat(t[i]));
    return r;
}
static void check(std::u32string_view t)
{
    static std::vector<eref::Run> got;
    auto want = eref::runs(t);
    auto in = g.put32(t);
    mc::cur("emoji_segmenter", in.data(), in.size(), 4);
    ++mc::traces;
    mc::transitions += t.size();
    got.clear();
    used = emoji_segmenter(in.data(), in.size());
    bool tile = used.buffer() == in.data() && used.size() == in.size();
    size_t size = 0, pos = 0;
    auto style = PresentationStyle {};
    size_t guard = 0;
    while (used.consume(out(size), out(style)))
    {
        got.push_back({ size, style == PresentationStyle::Emoji });
        auto v = *used;
        if (v.data() != in.data() + pos || v.size() != size - pos || v.empty() || used.currentCursorBegin() != pos || used.currentCursorEnd() != size
            || used.isEmoji() != (style == PresentationStyle::Emoji) || used.isText() == used.isEmoji() || used.substr() != v)
            tile = false;
        pos = size;
        if (++guard > in.size())
        {
            tile = false;
            break;
        }
    }
    if (used.consume(out(size), out(style)) && tile)
        mc::violation("end", "a run behind the end of " + mc::hex(t));
    if (!tile || pos != in.size())
        mc::violation("tiling " + key(t), "emoji runs do not tile " + mc::hex(t) + ": " + show(got));
    if (got != want)
        mc::violation("runs " + key(t), "emoji runs of " + mc::hex(t) + " are " + show(got) + " expected " + show(want));
}
/// Other ways to drive it: copies taken after every step, and the string_view constructor.
static void checkCopies(std::u32string_view t)
{
    auto want = eref::runs(t);
    auto in = g.put32(t);
    mc::cur("emoji_segmenter copies", in.data(), in.size(), 4);
    for (size_t at = 0; at <= want.size(); ++at)
    {
        emoji_segmenter s(in);
        std::vector<eref::Run> a, b;
        size_t n = 0;
        auto st = PresentationStyle {};
        for (size_t i = 0; i < at; ++i)
            if (s.consume(out(n), out(st)))
                a.push_back({ n, st == PresentationStyle::Emoji });
        b = a;
        emoji_segmenter c(s);
        for (size_t i = 0; i <= in.size() && c.consume(out(n), out(st)); ++i)
            a.push_back({ n, st == PresentationStyle::Emoji });
        emoji_segmenter d;
        d = s;
        for (size_t i = 0; i <= in.size() && d.consume(out(n), out(st)); ++i)
            b.push_back({ n, st == PresentationStyle::Emoji });
        ++mc::traces;
        if (a != want || b != want)
            mc::violation("copy", "a segmenter copied after " + std::to_string(at) + " runs of " + mc::hex(t) + " yields " + show(a) + " / " + show(b) + " expected " + show(want));
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    auto const A = eref::alphabet();
    for (size_t i = 0; i < A.size(); ++i)
        if (eref::cat(A[i]) != int(i))
        {
            fprintf(stderr, "alphabet\n");
            return 3;
        }
    int const K = int(A.size());
    std::u32string t;
    uint64_t n = 0;
    check(t);
    {
        emoji_segmenter d;
        size_t z = 0;
        auto st = PresentationStyle {};
        mc::cur("default", nullptr, 0, 1);
        if (d.consume(out(z), out(st)))
            mc::violation("default", "a default constructed segmenter yields a run");
    }
    mc::sequences(K, 1, mc::opt.thorough ? 7 : 6, [&](std::vector<int> const& s) {
        if (!mc::mine(n++) || mc::enough())
            return;
        t.clear();
        for (int i: s)
            t += A[size_t(i)];
        check(t);
        if (s.size() <= 4)
            checkCopies(t);
        ++mc::states;
    });
    // every code point in contexts that tell every category from every other one
    std::vector<std::pair<std::u32string, std::u32string>> ctx = { { U"", U"" }, { U"", U"\uFE0F" }, { U"", U"\uFE0E" }, { U"", U"\U0001F3FB" },
        { U"\U0001F466", U"" }, { U"\U0001F1E6", U"" }, { U"1\uFE0F", U"" }, { U"\U0001F600", U"" }, { U"\U0001F600", U"\U0001F600" },
        { U"\U0001F3F4", U"\U000E007F" }, { U"\U0001F3F4\U000E0062", U"" }, { U"\U0001F600\u200D", U"" }, { U"", U"\uFE0F\u20E3" }, { U"", U"\U000E0062\U000E007F" }, { U"\u2639", U"\u200D\u2639" } };
    for (uint32_t c = 0; c < 0x110100; ++c)
        if (mc::mine(c / 64) && !mc::enough())
        {
            for (auto& [a, b]: ctx)
            {
                t = a;
                t += char32_t(c);
                t += b;
                check(t);
            }
            ++mc::states;
        }
    for (char32_t c: { 0x110000u, 0x10FFFFu, 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
        for (auto& [a, b]: ctx)
            check(a + c + b);
    // pumped: prefix, one or two characters repeated, suffix
    std::vector<size_t> lens = { 14, 30, 63, 255, 300, 1000 };
    n = 0;
    for (int p = -1; p < K; ++p)
        for (int u = 0; u < K; ++u)
            for (int v = -1; v < K; ++v)
                for (int q = -1; q < K; ++q)
                {
                    if (!mc::mine(n++) || mc::enough())
                        continue;
                    for (size_t l: lens)
                    {
                        if (l > 300 && (p >= 0) != (q >= 0))
                            continue;
                        t.clear();
                        if (p >= 0)
                            t += A[size_t(p)];
                        for (size_t i = 0; i < l; ++i)
                        {
                            t += A[size_t(u)];
                            if (v >= 0)
                                t += A[size_t(v)];
                        }
                        if (q >= 0)
                            t += A[size_t(q)];
                        check(t);
                    }
                }
    for (int u = 0; u < K; ++u)
        for (int v = 0; v < K; ++v)
            if (mc::mine(uint64_t(u * K + v)) && !mc::enough())
            {
                t = A[12];
                for (size_t i = 0; i < 65537; ++i)
                    (t += A[size_t(u)]) += A[size_t(v)];
                t += A[14];
                check(t);
            }
    mc::sample("RI RI ZWJ TagBase TagSeq TagTerm and all other sequences over 15 categories");
    return mc::finish();
}
