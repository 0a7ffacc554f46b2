// R02: the run segmenter against the common refinement of its component segmenters.
#include <libunicode/run_segmenter.h>

#include "emojiref.hpp"
#include "enumnames.hpp"
#include "mc.hpp"
#include "scriptref.hpp"
using namespace unicode;

static mc::Guarded g(1 << 20);

// A component that yields prescribed runs: every combination of them is enumerated.
template <int Id>
struct Toy
{
    using property_type = int;
    inline static std::vector<size_t> cuts; // ends, the last one is the text size
    Toy() = default;
    Toy(char32_t const*, size_t size): size_ { size } {}
    bool consume(out<size_t> size, out<int> value)
    {
        if (k_ >= cuts.size() || size_ == 0)
            return false;
        *size = cuts[k_];
        *value = int(Id * 1000 + k_);
        ++k_;
        return true;
    }
    size_t size_ = 0, k_ = 0;
};
static std::vector<size_t> cutsOf(unsigned mask, size_t n)
{
    std::vector<size_t> r;
    for (size_t i = 1; i < n; ++i)
        if (mask >> (i - 1) & 1)
            r.push_back(i);
    if (n)
        r.push_back(n);
    return r;
}
static int label(std::vector<size_t> const& cuts, size_t pos, int id)
{
    for (size_t k = 0; k < cuts.size(); ++k)
        if (pos < cuts[k])
            return id * 1000 + int(k);
    return -1;
}
template <typename... T>
static void toy(size_t n, std::vector<std::vector<size_t>> const& cs)
{
    using Seg = basic_run_segmenter<T...>;
    std::u32string text(n, U'x');
    auto in = g.put32(text);
    mc::cur("basic_run_segmenter", in.data(), in.size(), 4, long(sizeof...(T)));
    ++mc::traces;
    std::set<size_t> ends;
    for (auto& c: cs)
        ends.insert(c.begin(), c.end());
    auto s = Seg(in);
    typename Seg::range r {};
    size_t pos = 0;
    auto it = ends.begin();
    std::string bad;
    while (true)
    {
        if (s.finished() != (pos == n))
            bad = "finished() is wrong at " + std::to_string(pos);
        if (!s.consume(out(r)))
            break;
        ++mc::transitions;
        if (it == ends.end() || r.start != pos || r.end != *it)
        {
            bad = "range " + std::to_string(r.start) + ".." + std::to_string(r.end) + " at " + std::to_string(pos);
            break;
        }
        size_t i = 0;
        auto one = [&](int v) {
            if (v != label(cs[i], pos, int(i)))
                bad = "label " + std::to_string(v) + " of component " + std::to_string(i) + " in " + std::to_string(r.start) + ".." + std::to_string(r.end);
            ++i;
        };
        std::apply([&](auto... v) { (one(v), ...); }, r.properties);
        pos = r.end;
        ++it;
    }
    if (bad.empty() && (pos != n || s.consume(out(r))))
        bad = "ends at " + std::to_string(pos);
    if (!bad.empty())
    {
        std::string d;
        for (auto& c: cs)
        {
            d += " [";
            for (auto x: c)
                d += std::to_string(x) + " ";
            d += "]";
        }
        mc::violation("refine " + std::to_string(sizeof...(T)) + " " + bad.substr(0, 20), "components ending at" + d + ": " + bad);
    }
}

static std::string show(std::vector<run_segmenter::range> const& v)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < 20; ++i)
        r += " " + std::to_string(v[i].start) + ".." + std::to_string(v[i].end) + "," + enumnames::nameOf(enumnames::script(), std::get<Script>(v[i].properties))
             + (std::get<PresentationStyle>(v[i].properties) == PresentationStyle::Emoji ? ",E" : ",T");
    return r;
}
static std::string key(std::u32string_view t)
{
    return mc::hex(t.substr(0, 6));
}
static void check(std::u32string_view t)
{
    auto es = eref::runs(t);
    auto ss = sref::runs(t);
    auto in = g.put32(t);
    mc::cur("run_segmenter", in.data(), in.size(), 4);
    ++mc::traces;
    mc::transitions += t.size();
    // labels: the real components (their own properties are E01 and R01)
    std::vector<Script> sl;
    {
        script_segmenter s(in);
        while (auto r = s.consume())
            sl.push_back(r->script);
    }
    std::vector<run_segmenter::range> got, want;
    size_t a = 0, b = 0;
    for (size_t pos = 0; pos < t.size();)
    {
        size_t end = std::min(ss[a].end, es[b].end);
        want.push_back({ pos, end, { a < sl.size() ? sl[a] : Script::Invalid, es[b].emoji ? PresentationStyle::Emoji : PresentationStyle::Text } });
        if (ss[a].end == end)
            ++a;
        if (es[b].end == end)
            ++b;
        pos = end;
    }
    run_segmenter s(in.data(), in.size());
    run_segmenter::range r {};
    for (size_t i = 0; i <= t.size() && s.consume(out(r)); ++i)
        got.push_back(r);
    if (s.consume(out(r)) || !s.finished())
        mc::violation("end", "a run behind the end of " + mc::hex(t));
    if (got != want)
        mc::violation("runs " + key(t), "runs of " + mc::hex(t) + " are" + show(got) + " expected" + show(want));
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    uint64_t n = 0;
    // all component behaviours
    for (size_t len = 0; len <= (mc::opt.thorough ? 9 : 8); ++len)
    {
        unsigned M = len ? 1u << (len - 1) : 1;
        for (unsigned x = 0; x < M; ++x)
            for (unsigned y = 0; y < M; ++y)
            {
                if (!mc::mine(n++) || mc::enough())
                    continue;
                Toy<0>::cuts = cutsOf(x, len);
                Toy<1>::cuts = cutsOf(y, len);
                toy<Toy<0>>(len, { Toy<0>::cuts });
                toy<Toy<0>, Toy<1>>(len, { Toy<0>::cuts, Toy<1>::cuts });
                if (len <= (mc::opt.thorough ? 8 : 7))
                    for (unsigned z = 0; z < M; ++z)
                    {
                        Toy<2>::cuts = cutsOf(z, len);
                        toy<Toy<0>, Toy<1>, Toy<2>>(len, { Toy<0>::cuts, Toy<1>::cuts, Toy<2>::cuts });
                    }
                mc::states++;
            }
    }
    std::u32string t;
    check(t);
    // script kinds x emoji categories
    std::vector<char32_t> A = { U'a', 0x3B1, 0x4E00, U' ', 0x0300, 0x0964, 0xE000, 0x2639, 0x1F600, 0x1F466, 0x1F3FB, 0x1F1E6, U'1', 0x20E3, 0x200D, 0xFE0E, 0xFE0F };
    mc::sequences(int(A.size()), 1, mc::opt.thorough ? 7 : 6, [&](std::vector<int> const& s) {
        if (!mc::mine(n++) || mc::enough())
            return;
        t.clear();
        for (int i: s)
            t += A[size_t(i)];
        check(t);
        mc::states++;
    });
    for (uint32_t c = 0; c < 0x110000; ++c)
        if (mc::mine(c / 64) && !mc::enough())
            for (auto p: { U"", U"a", U"\u03B1", U"\U0001F600", U" " })
                for (auto q: { U"", U"a", U"\uFE0F", U"\u03B1" })
                    check(std::u32string(p) + char32_t(c) + q);
    for (char32_t u: A)
        for (char32_t v: A)
            for (char32_t w: A)
                if (mc::mine(n++) && !mc::enough())
                    for (size_t l: { 12u, 70u, 300u })
                    {
                        t.clear();
                        for (size_t i = 0; i < l; ++i)
                            ((t += u) += v) += w;
                        check(t);
                    }
    for (char32_t u: A)
        for (char32_t v: A)
            if (mc::mine(n++) && !mc::enough())
            {
                t.clear();
                for (size_t i = 0; i < 33000; ++i)
                    (t += u) += v;
                check(t);
            }
    mc::sample("all pairs and triples of component partitions of texts to length 8; a U+1F600 U+03B1 U+FE0F ...");
    return mc::finish();
}
