// W01: product search of the real word state machine (with look-ahead) and the UAX #29 reference; iterator against whole-text reference.
#include <libunicode/word_segmenter.h>

#include "mc.hpp"
#include "wordref.hpp"
using namespace unicode;

struct Node
{
    word_segmenter_state impl;
    wref::State ref;
    int promise; // representative the next non-transparent character must be; -1: the text ends with transparents
    int parent;
    char32_t via;
    bool reinit;
};
static std::vector<Node> nodes;
static std::string path(int n)
{
    std::vector<std::string> p;
    for (; n >= 0; n = nodes[size_t(n)].parent)
        p.push_back(mc::hexcp(nodes[size_t(n)].via) + (nodes[size_t(n)].reinit ? "(init)" : ""));
    std::string r;
    for (auto it = p.rbegin(); it != p.rend(); ++it)
        r += (r.empty() ? "" : " ") + *it;
    return r;
}
static std::string key(word_segmenter_state s, wref::State const& r, int promise)
{
    __builtin_clear_padding(&s);
    std::string k(reinterpret_cast<char const*>(&s), sizeof s);
    uint32_t v = r.key();
    k.append(reinterpret_cast<char const*>(&v), 4);
    k += char(promise + 1);
    return k;
}
static std::string cn(char32_t c)
{
    auto k = wref::cls(c);
    return std::string(wref::name(k.w)) + (k.ep ? "+EP" : "");
}

static std::vector<size_t> words(std::u32string_view in, bool& tiled, bool& ends)
{
    std::vector<size_t> r;
    size_t pos = 0;
    tiled = ends = true;
    word_segmenter s(in);
    for (size_t guard = 0; guard < in.size() + 2; ++guard)
    {
        auto v = *s;
        if (s.empty() != v.empty() || s.size() != v.size() || bool(s) != s.codepointsAvailable())
            tiled = false;
        if (!in.empty() || !v.empty())
        {
            r.push_back(pos);
            tiled = tiled && v.data() == in.data() + pos && !v.empty();
            pos += v.size();
        }
        if (!s.codepointsAvailable())
        {
            ++s;
            ends = ends && (*s).empty() && s == word_segmenter() && !s.codepointsAvailable() && s == word_segmenter(in.data() + in.size(), in.data() + in.size());
            tiled = tiled && pos == in.size();
            return r;
        }
        auto const before = s;
        ++s;
        // a copy is equal, the same position reached again is equal, another position is not
        auto again = before;
        ++again;
        ends = ends && before == before && !(before == s) && !(s == before) && again == s && *again == *s;
    }
    ends = false;
    return r;
}
/// Drives the step-wise interface over the whole text; mode 0: across breaks, 1: re-initialised at breaks.
static std::vector<size_t> steps(std::u32string_view in, int mode, word_segmenter_state& st)
{
    std::vector<size_t> r;
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (i == 0)
        {
            word_process_init(in[0], st);
            r.push_back(0);
        }
        else if (word_process_breakable(in[i], in.data() + i + 1, in.size() - i - 1, st))
        {
            r.push_back(i);
            if (mode)
                word_process_init(in[i], st);
        }
    }
    return r;
}
static std::string show(std::vector<size_t> const& v)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < 30; ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r;
}
static mc::Guarded g(1 << 20);
static word_segmenter_state used[2]; // never re-created
static void check(std::u32string_view t)
{
    auto want = wref::boundaries(t);
    auto in = g.put32(t);
    bool tiled, ends;
    mc::cur("word_segmenter", in.data(), in.size(), 4);
    mc::traces += 3;
    mc::transitions += t.size();
    auto got = words(in, tiled, ends);
    auto k = [&] {
        std::string r;
        for (size_t i = 0; i < t.size() && i < 6; ++i)
            r += "<" + cn(t[i]);
        return r;
    };
    if (got != want)
        mc::violation("words" + k(), "words of " + mc::hex(t) + " start at " + show(got) + " expected " + show(want));
    if (!tiled || !ends)
        mc::violation("tiling", "words do not tile " + mc::hex(t));
    for (int m = 0; m < 2; ++m)
    {
        mc::cur("word_process_breakable", in.data(), in.size(), 4, m);
        auto s = steps(in, m, used[m]);
        if (s != want)
            mc::violation(std::string("steps") + char('0' + m) + k(), std::string("step-wise interface (") + (m ? "re-initialised at breaks" : "continued") + ") on " + mc::hex(t) + " breaks at " + show(s) + " expected " + show(want));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::extra["conformance_lines_checked_on_reference"] = wref::selfCheck(mc::opt.shard == 0 ? 4 : 1);
    auto const A = wref::alphabet();
    mc::extra["alphabet"] = A.size();
    std::vector<wref::Cls> K;
    std::vector<int> solid, clear;
    for (size_t i = 0; i < A.size(); ++i)
    {
        K.push_back(wref::cls(A[i]));
        (wref::transparent(K[i].w) ? clear : solid).push_back(int(i));
    }
    auto choices = solid;
    choices.push_back(-1);
    std::unordered_map<std::string, int> seen;
    auto blank = [](int slot) {
        alignas(word_segmenter_state) static unsigned char mem[2][sizeof(word_segmenter_state)];
        memset(mem[slot], 0, sizeof mem[slot]);
        return new (mem[slot]) word_segmenter_state;
    };
    auto add = [&](word_segmenter_state const& s, wref::State const& r, int promise, int parent, char32_t via, bool re) {
        auto k = key(s, r, promise);
        if (seen.count(k))
            return;
        seen.emplace(k, int(nodes.size()));
        nodes.push_back({ s, r, promise, parent, via, re });
    };
    for (size_t c = 0; c < A.size(); ++c)
        for (int p: choices)
        {
            auto* s = blank(0);
            word_process_init(A[c], *s);
            add(*s, wref::advance({}, K[c]), p, -1, A[c], true);
        }
    size_t const Cap = mc::opt.thorough ? 3000000 : 400000;
    size_t i = 0;
    for (; i < nodes.size(); ++i)
    {
        if (nodes.size() > Cap)
        {
            mc::capped = true;
            mc::note("state cap reached");
            break;
        }
        auto const base = nodes[i];
        // what may come next: a transparent character, or the promised one (which makes a new promise)
        std::vector<std::pair<int, int>> next;
        for (int c: clear)
            next.emplace_back(c, base.promise);
        if (base.promise >= 0)
            for (int p: choices)
                next.emplace_back(base.promise, p);
        for (auto [c, p]: next)
        {
            bool first = true, brk = false;
            word_segmenter_state after {};
            // the look-ahead as it may look in memory: transparents, then the promised character (or the end)
            for (int gap = 0; gap < 5; ++gap)
            {
                char32_t rest[8];
                size_t n = 0;
                if (gap)
                    rest[n++] = A[size_t(clear[size_t(gap - 1) % clear.size()])];
                if (gap == 4)
                    rest[n++] = A[size_t(clear[1])];
                if (p >= 0)
                    rest[n++] = A[size_t(p)];
                if (p >= 0 && gap == 3)
                    rest[n++] = U'a';
                auto* s = blank(1);
                *s = base.impl;
                auto r = g.put32(std::u32string_view(rest, n));
                mc::cur("word_process_breakable", r.data(), n, 4, long(A[size_t(c)]), long(i));
                bool got = word_process_breakable(A[size_t(c)], r.data(), n, *s);
                bool want = wref::boundary(base.ref, K[size_t(c)], p >= 0 ? K[size_t(p)].w : wref::End);
                if (mc::opt.shard == 0)
                    ++mc::transitions;
                if (got != want)
                    mc::violation("boundary<" + cn(base.via) + "|" + cn(A[size_t(c)]), "after " + path(int(i)) + " then " + mc::hexcp(A[size_t(c)]) + " with look-ahead " + mc::hex(rest, n, 4)
                                                                                       + ": implementation says " + (got ? "break" : "no break") + ", UAX #29 the opposite");
                if (mc::enough())
                    return mc::finish();
                if (first || got != brk)
                {
                    after = *s;
                    brk = got;
                    first = false;
                }
                auto nr = wref::advance(base.ref, K[size_t(c)]);
                if (got == want)
                {
                    add(*s, nr, p, int(i), A[size_t(c)], false);
                    if (got)
                    {
                        word_process_init(A[size_t(c)], *s); // re-initialised at the break, in the used object
                        add(*s, nr, p, int(i), A[size_t(c)], true);
                    }
                }
            }
        }
        // a new text in the used object
        if (i % 7 == 0)
            for (size_t c = 0; c < A.size(); ++c)
            {
                auto* s = blank(1);
                *s = base.impl;
                word_process_init(A[c], *s);
                add(*s, wref::advance({}, K[c]), c % 2 ? -1 : solid[c % solid.size()], -1, A[c], true);
            }
    }
    if (mc::opt.shard == 0)
    {
        mc::states = nodes.size();
        mc::extra["product_states"] = nodes.size();
    }
    // every code point between all representatives
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        if (!mc::mine(c >> 6) || mc::enough())
            continue;
        auto ck = wref::table()[c];
        for (size_t x = 0; x < A.size(); ++x)
            for (size_t y = 0; y < A.size(); ++y)
            {
                // x c y and c x y and x y c, each step-wise
                auto one = [&](char32_t a0, char32_t a1, char32_t a2, wref::Cls k0, wref::Cls k1, wref::Cls k2) {
                    char32_t t[3] = { a0, a1, a2 };
                    auto la = [&](wref::Cls n1, bool more, wref::Cls n2) { return !wref::transparent(n1.w) ? n1.w : more ? (wref::transparent(n2.w) ? wref::End : n2.w) : wref::End; };
                    auto r = wref::advance({}, k0);
                    bool w1 = wref::boundary(r, k1, la(k2, false, k2));
                    r = wref::advance(r, k1);
                    bool w2 = wref::boundary(r, k2, wref::End);
                    word_segmenter_state s;
                    mc::cur("word_process_breakable", &t, 3, 4);
                    word_process_init(a0, s);
                    bool g1 = word_process_breakable(a1, t + 2, 1, s);
                    bool g2 = word_process_breakable(a2, t + 3, 0, s);
                    if (g1 != w1 || g2 != w2)
                        mc::violation("triple<" + cn(a0) + "<" + cn(a1) + "<" + cn(a2), "step-wise breaks in " + mc::hex(t, 3, 4) + " are " + (g1 ? "1" : "0") + (g2 ? "1" : "0") + " expected " + (w1 ? "1" : "0") + (w2 ? "1" : "0"));
                };
                one(A[x], c, A[y], K[x], ck, K[y]);
                one(c, A[x], A[y], ck, K[x], K[y]);
                one(A[x], A[y], c, K[x], K[y], ck);
            }
        mc::traces += 3 * A.size() * A.size();
        mc::transitions += 6 * A.size() * A.size();
    }
    for (char32_t c: { 0x110000u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
    {
        char32_t t[] = { U'a', c, U'a', c, c, U' ' };
        auto in = g.put32(std::u32string_view(t, 6));
        bool tiled, ends;
        mc::cur("word_segmenter", in.data(), in.size(), 4);
        words(in, tiled, ends);
        if (!tiled || !ends)
            mc::violation("beyond", "words do not tile " + mc::hex(in));
    }
    // whole texts through iterator and step-wise interface
    uint64_t item = 0;
    mc::sequences(int(A.size()), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        char32_t b[8];
        for (size_t k = 0; k < s.size(); ++k)
            b[k] = A[size_t(s[k])];
        check(std::u32string_view(b, s.size()));
    });
    // pumped texts
    std::vector<int> counts;
    for (int n = 1; n <= 40; ++n)
        counts.push_back(n);
    for (int n: { 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 4096, 65535, 65536, 65537 })
        counts.push_back(n);
    for (size_t p1 = 0; p1 < A.size(); ++p1)
        for (size_t p2 = 0; p2 <= A.size(); ++p2)
            for (int n: counts)
            {
                if (!mc::mine(item++) || mc::enough() || (n > 4096 && p2 != A.size()))
                    continue;
                for (auto pre: { U"", U"a", U"1:", U"\u05d0\"", U"a'" })
                {
                    std::u32string t = pre;
                    for (int k = 0; k < n; ++k)
                    {
                        t += A[p1];
                        if (p2 < A.size())
                            t += A[p2];
                    }
                    t += U"a1";
                    check(t);
                }
            }
    for (size_t k = 0; k < nodes.size() && mc::samples.size() < 4; k += nodes.size() / 4 + 1)
        mc::sample(path(int(k)));
    return mc::finish();
}
