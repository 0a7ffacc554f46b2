// R01: the real script segmenter against intersection of script(-extension) sets.
#include <libunicode/script_segmenter.h>

#include "enumnames.hpp"
#include "mc.hpp"
#include "scriptref.hpp"
using namespace unicode;

static mc::Guarded g(1 << 20);
static script_segmenter used;
static std::vector<int> scriptIndex(256, -1); // library enumerator -> reference index
static std::string setName(sref::Set const& s)
{
    std::string r;
    for (size_t i = 0; i < sref::names().size(); ++i)
        if (s[i])
            r += (r.empty() ? "" : "|") + sref::names()[i];
    return r;
}
static std::string key(std::u32string_view t)
{
    std::string r;
    for (size_t i = 0; i < t.size() && i < 5; ++i)
        r += (r.empty() ? "" : " < ") + setName(sref::of(t[i])).substr(0, 60);
    return r;
}
static void check(std::u32string_view t)
{
    auto want = sref::runs(t);
    auto in = g.put32(t);
    mc::cur("script_segmenter", in.data(), in.size(), 4);
    ++mc::traces;
    mc::transitions += t.size();
    used = script_segmenter(in.data(), in.size());
    size_t size = 0, k = 0;
    auto sc = Script::Invalid;
    bool bad = false, label = false;
    std::string got;
    while (used.consume(out(size), out(sc)))
    {
        if (mc::violations.size() < 5)
            got += " " + std::to_string(size) + ":" + enumnames::nameOf(enumnames::script(), sc);
        if (k >= want.size() || want[k].end != size)
        {
            bad = true;
            if (k >= in.size())
                break;
        }
        else if (int i = scriptIndex[uint8_t(sc)]; i < 0 || !want[k].possible[size_t(i)])
            label = true;
        ++k;
    }
    auto show = [&] {
        std::string r;
        for (auto& w: want)
            r += " " + std::to_string(w.end) + ":" + setName(w.possible);
        return r;
    };
    if (bad || k != want.size())
        mc::violation("runs " + key(t), "script runs of " + mc::hex(t) + " are" + got + " expected" + show());
    else if (label)
        mc::violation("label " + key(t), "script runs of " + mc::hex(t) + " are named" + got + " but can be" + show());
    if (used.consume(out(size), out(sc)) || used.consume().has_value())
        mc::violation("end", "a run behind the end of " + mc::hex(t));
}
/// The other constructors, the optional-returning form and copies in the middle.
static void checkForms(std::u32string_view t)
{
    auto collect = [](script_segmenter s, std::vector<std::pair<size_t, Script>>& v, size_t n) {
        for (size_t i = 0; i <= n; ++i)
            if (auto r = s.consume())
                v.emplace_back(r->size, r->script);
    };
    auto in = g.put32(t);
    std::vector<std::pair<size_t, Script>> base, v;
    mc::cur("script_segmenter forms", in.data(), in.size(), 4);
    collect(script_segmenter(in.data(), in.size()), base, t.size());
    collect(script_segmenter(in), v, t.size());
    mc::traces += 2;
    if (v != base)
        mc::violation("view", "the string_view constructor segments " + mc::hex(t) + " differently");
    if (t.find(U'\0') == t.npos)
    {
        std::u32string z(t);
        z += U'\0';
        auto zin = g.put32(z);
        v.clear();
        mc::cur("script_segmenter NUL-terminated", zin.data(), zin.size(), 4);
        collect(script_segmenter(zin.data()), v, t.size());
        if (v != base)
            mc::violation("nul", "the NUL-terminated constructor segments " + mc::hex(t) + " differently");
        in = g.put32(t);
    }
    for (size_t at = 0; at <= base.size(); ++at)
    {
        script_segmenter s(in);
        v.clear();
        auto sc = Script::Invalid;
        size_t n = 0;
        for (size_t i = 0; i < at; ++i)
            if (s.consume(out(n), out(sc)))
                v.emplace_back(n, sc);
        auto w = v;
        collect(s, v, t.size()); // a copy
        script_segmenter d;
        d = s;
        collect(std::move(d), w, t.size());
        if (v != base || w != base)
            mc::violation("copy", "a copied segmenter goes on differently in " + mc::hex(t));
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (auto& [n, e]: enumnames::script())
        scriptIndex[uint8_t(e)] = sref::idx(n);
    auto const& T = sref::tables();
    size_t const K = T.sets.size();
    mc::extra["distinct_script_sets"] = K;
    std::u32string t;
    check(t);
    {
        script_segmenter d;
        size_t n;
        Script s;
        if (d.consume(out(n), out(s)))
            mc::violation("default", "a default constructed segmenter yields a run");
    }
    // reference states: every set reachable by intersections, with a shortest text leading there
    struct N
    {
        sref::Set s;
        std::u32string w;
    };
    std::vector<N> nodes;
    std::set<std::string> seen;
    sref::Set start;
    start.set(size_t(sref::idx("Common")));
    nodes.push_back({ start, U"" });
    seen.insert(start.to_string());
    for (size_t i = 0; i < nodes.size(); ++i)
        for (size_t k = 0; k < K; ++k)
        {
            sref::Set n = T.sets[k], c = nodes[i].s, r;
            if (sref::wild(n))
                r = sref::wild(c) ? c | n : c;
            else if (sref::wild(c))
                r = n;
            else
                r = (c & n).any() ? c & n : n;
            if (seen.insert(r.to_string()).second)
                nodes.push_back({ r, nodes[i].w + T.first[k] });
        }
    mc::extra["reference_states"] = nodes.size();
    for (size_t i = 0; i < nodes.size(); ++i)
        if (mc::mine(i) && !mc::enough())
        {
            mc::states++;
            check(nodes[i].w);
            for (size_t a = 0; a < K; ++a)
            {
                t = nodes[i].w + T.first[a];
                check(t);
                if (a % 7 == i % 7)
                    checkForms(t);
                for (size_t b = 0; b < K; ++b)
                {
                    t = nodes[i].w;
                    t += T.first[a];
                    t += T.first[b];
                    check(t);
                }
            }
        }
    // every code point: against one representative of every single script, before and behind
    std::vector<char32_t> single;
    for (size_t k = 0; k < K; ++k)
        if (T.sets[k].count() == 1)
            single.push_back(T.first[k]);
    char32_t const few[] = { U'a', 0x3B1, 0x0967, 0x300, 0x0964, 0x3001, 0x1CF7, 0x0342, U' ' };
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c / 16) || mc::enough())
            continue;
        bool const plain = T.sets[T.of[c]].count() == 1 && c > 0x20000;
        t = char32_t(c);
        check(t);
        for (char32_t s: few)
        {
            check(std::u32string { s, c });
            check(std::u32string { char32_t(c), s });
        }
        if (!plain || c % 256 < 2)
            for (char32_t s: single)
                check(std::u32string { char32_t(c), s });
    }
    for (char32_t c: { 0x110000u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu })
        for (char32_t s: single)
        {
            check(std::u32string { c, s });
            check(std::u32string { s, c });
            check(std::u32string { c });
        }
    // longer histories over a small alphabet, and pumped ones
    std::vector<char32_t> A = { U'a', 0x3B1, 0x4E00, 0x3042, 0x0905, 0x0980 + 5, U' ', 0x0300, 0x0964, 0x3001, 0x0342, 0x0484, 0x1CD0, 0x064B, 0xE000, 0x30FC };
    uint64_t n = 0;
    mc::sequences(int(A.size()), 1, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(n++) || mc::enough())
            return;
        t.clear();
        for (int i: s)
            t += A[size_t(i)];
        check(t);
        if (s.size() <= 3)
            checkForms(t);
    });
    for (char32_t p: A)
        for (char32_t u: A)
            for (char32_t v: A)
                for (char32_t q: A)
                    if (mc::mine(n++) && !mc::enough())
                        for (size_t l: { 15u, 33u, 127u, 256u })
                        {
                            t = p;
                            for (size_t i = 0; i < l; ++i)
                                (t += u) += v;
                            t += q;
                            check(t);
                        }
    for (char32_t u: A)
        for (char32_t v: A)
            if (mc::mine(n++) && !mc::enough())
            {
                t.clear();
                for (size_t i = 0; i < 40000; ++i)
                    (t += u) += v;
                check(t + A[0]);
            }
    mc::sample("U+0964 (Common; Beng Deva ...) U+3001 (Common; Bopo Hang ...) a");
    return mc::finish();
}
