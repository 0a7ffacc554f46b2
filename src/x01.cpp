// X01: the cluster width accumulator and the one-shot width functions against the documented rules.
#include "mc.hpp"
#include "widthref.hpp"
#include <libunicode/width.h>
#include <type_traits>
#include <cstddef>
using namespace unicode;
using Acc = grapheme_cluster_width_accumulator;

static std::vector<char32_t> reps;   // first member of each class
static std::vector<char32_t> lasts;  // last member of each class
static mc::Guarded g32(1 << 20), g8(1 << 21);

static std::string names(std::u32string_view t)
{
    std::string r;
    size_t from = t.size() > 4 ? t.size() - 4 : 0;
    for (size_t i = from; i < t.size(); ++i)
        r += (i > from ? " " : "") + wref::cls(t[i]).name();
    return r;
}
static void bad(char const* how, std::u32string_view t, unsigned got, unsigned want)
{
    mc::violation(std::string(how) + ":" + names(t),
                  std::string(how) + " of " + mc::hex(t) + " is " + std::to_string(got) + ", the documented rules give " + std::to_string(want));
}

// --- all short sequences through every interface ---
static void shortSequences(int maxLen)
{
    int const k = int(reps.size());
    Acc used;
    for (int first = 0; first < k; ++first)
        for (int second = -1; second < k; ++second)
        {
            if (!mc::mine(uint64_t(first * (k + 1) + second + 1)))
                continue;
            std::u32string t { reps[size_t(first)] };
            if (second >= 0)
                t += reps[size_t(second)];
            // depth-first over all extensions, with the incremental interface along the path
            struct Frame { Acc a; wref::State r; };
            auto rec = [&](auto&& self, std::u32string& s, Acc const& a, wref::State const& r) -> void {
                mc::states++;
                unsigned const want = r.width();
                if (a.width() != want)
                    bad("accumulated width", s, a.width(), want);
                auto v = g32.put32(s);
                mc::cur("grapheme_cluster_width(u32)", v.data(), v.size(), 4);
                if (unsigned got = grapheme_cluster_width(v); got != want)
                    bad("grapheme_cluster_width", s, got, want);
                if (second < 0 || int(s.size()) >= maxLen || mc::enough())
                    return;
                for (char32_t c: reps)
                {
                    Acc b = a;
                    b.push(c);
                    auto q = r;
                    q.push(wref::cls(c));
                    s.push_back(c);
                    mc::transitions++;
                    self(self, s, b, q);
                    s.pop_back();
                }
            };
            // the accumulator of a used, reset object
            used.reset();
            if (used.width() != 0)
                mc::violation("reset-width", "width() after reset() is " + std::to_string(used.width()));
            wref::State r;
            unsigned want = 0;
            for (char32_t c: t)
            {
                used.push(c);
                r.push(wref::cls(c));
            }
            want = wref::ofCluster(t);
            if (want != r.width())
                mc::violation("reference", "the two readings of the rules differ on " + mc::hex(t));
            rec(rec, t, used, r);
            // leave it dirty in a different way each time
            used.push(0x200D);
        }
}

// --- explicit product of the real object and the reference ---
struct Node { Acc a; wref::State r; uint32_t parent; char32_t via; };
static std::vector<Node> nodes;
static std::u32string path(uint32_t n)
{
    std::u32string s;
    for (; n; n = nodes[n].parent)
        s.insert(s.begin(), nodes[n].via);
    return s;
}
static void product(size_t maxNodes)
{
    if constexpr (!std::is_trivially_copyable_v<Acc>)
        return;
    std::unordered_set<std::string> seen;
    auto key = [](Acc a, wref::State const& r) {
        __builtin_clear_padding(&a);
        std::string s(reinterpret_cast<char const*>(&a), sizeof a);
        auto add = [&](auto v) { s.append(reinterpret_cast<char const*>(&v), sizeof v); };
        add(r.last.w); add(r.last.varbase); add(r.last.joins); add(r.lastWidth);
        add(r.open); add(r.virama); add(r.skip); add(r.oddFlags); add(r.total); add(r.current);
        return s;
    };
    auto push = [&](Acc const& a, wref::State const& r, uint32_t p, char32_t via) {
        if (nodes.size() >= maxNodes)
        {
            mc::capped = true;
            return;
        }
        if (seen.insert(key(a, r)).second)
            nodes.push_back({ a, r, p, via });
    };
    nodes.reserve(1 << 20);
    push(Acc {}, wref::State {}, 0, 0);
    size_t runCap = 0;
    for (uint32_t n = 0; n < nodes.size() && !mc::enough(); ++n)
    {
        size_t flags = 0; // bound on the length of a run of regional indicators
        for (uint32_t p = n; p && wref::cls(nodes[p].via).ri; p = nodes[p].parent)
            ++flags;
        for (size_t k = 0; k < reps.size() + lasts.size(); ++k)
        {
            char32_t const c = k < reps.size() ? reps[k] : lasts[k - reps.size()];
            Acc a = nodes[n].a;
            a.push(c);
            auto r = nodes[n].r;
            auto cl = wref::cls(c);
            r.push(cl);
            mc::transitions++;
            if (a.width() != r.width())
            {
                auto s = path(n);
                s += c;
                bad("accumulated width", s, a.width(), r.width());
                continue;
            }
            if (k >= reps.size())
                continue; // other members of a class: checked on the transition only
            if (r.total > 9 || r.total < -5 || (cl.ri && flags >= 4))
            {
                ++runCap;
                continue;
            }
            push(a, r, n, c);
        }
    }
    mc::states += nodes.size();
    mc::extra["product states"] = nodes.size();
    mc::extra["transitions cut at a total beyond -5..9 or five flags in a row"] = runCap;
}

// --- every code point after every access word, followed by every telling continuation ---
static void everyCodepoint()
{
    // reachable reference states up to totals, with access words
    std::vector<std::u32string> words;
    std::vector<wref::State> st;
    auto add = [&](std::u32string w, wref::State const& s) {
        for (auto& x: st)
            if (x.sameBut(s))
                return;
        st.push_back(s);
        words.push_back(std::move(w));
    };
    add(U"", {});
    for (size_t i = 0; i < st.size(); ++i)
        for (char32_t c: reps)
        {
            auto s = st[i];
            s.push(wref::cls(c));
            add(words[i] + c, s);
        }
    mc::extra["reference states (totals aside)"] = st.size();
    std::vector<std::u32string> tails;
    for (char32_t c: reps)
        tails.push_back(std::u32string(1, c));
    std::vector<Acc> pre(st.size());
    for (size_t i = 0; i < st.size(); ++i)
        for (char32_t c: words[i])
            pre[i].push(c);
    for (uint32_t c = 0; c < ucd::N + 0x200; ++c)
    {
        if (!mc::mine(c >> 7))
            continue;
        auto cl = wref::cls(c);
        if (!(c & 0x7F) && mc::enough())
            return;
        mc::cur("push", &c, 1, 4);
        for (size_t i = 0; i < st.size(); ++i)
        {
            Acc a = pre[i];
            a.push(c);
            auto r = st[i];
            r.push(cl);
            mc::transitions++;
            if (a.width() != r.width())
            {
                bad("accumulated width", words[i] + char32_t(c), a.width(), r.width());
                continue;
            }
            for (auto& t: tails)
            {
                Acc b = a;
                auto q = r;
                for (char32_t x: t)
                {
                    b.push(x);
                    q.push(wref::cls(x));
                }
                mc::transitions++;
                if (b.width() != q.width())
                    bad("accumulated width", words[i] + char32_t(c) + t, b.width(), q.width());
            }
        }
    }
    // all states x every suffix of length 3 over the classes, on copies of a used object
    uint64_t idx = 0;
    for (size_t i = 0; i < st.size() && !mc::enough(); ++i)
    {
        if (!mc::mine(idx++))
            continue;
        Acc u;
        for (char32_t c: words[(i + 7) % words.size()])
            u.push(c);
        u.reset();
        for (char32_t c: words[i])
            u.push(c);
        for (char32_t x: reps)
            for (char32_t y: reps)
                for (char32_t z: reps)
                {
                    Acc b = u;
                    auto q = st[i];
                    for (char32_t c: { x, y, z })
                    {
                        b.push(c);
                        q.push(wref::cls(c));
                        mc::transitions++;
                        if (b.width() != q.width())
                            bad("accumulated width", words[i] + x + y + z, b.width(), q.width());
                    }
                }
    }
}

// --- pumped clusters ---
static void pumped()
{
    uint64_t idx = 0;
    std::vector<size_t> lens { 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 65535, 65536, 65537 };
    for (char32_t p: reps)
        for (char32_t x: reps)
        {
            if (!mc::mine(idx++))
                continue;
            std::vector<char32_t> ys = x == p ? reps : std::vector<char32_t> { x };
            for (char32_t y: ys)
            {
                Acc a;
                wref::State r;
                a.push(p);
                r.push(wref::cls(p));
                std::u32string s { p };
                size_t li = 0;
                size_t const top = mc::opt.thorough ? 65540 : y == x && x == p ? 65540 : 1100;
                for (size_t n = 1; n <= top; ++n)
                {
                    char32_t c = n % 2 ? x : y;
                    a.push(c);
                    r.push(wref::cls(c));
                    s += c;
                    mc::transitions++;
                    if (a.width() != r.width())
                    {
                        mc::violation("pumped:" + names(s.substr(0, 4)), "accumulated width of " + mc::hex(s) + " is " + std::to_string(a.width()) + ", documented " + std::to_string(r.width()));
                        break;
                    }
                    if (li < lens.size() && s.size() == lens[li])
                    {
                        ++li;
                        auto v = g32.put32(s);
                        mc::cur("grapheme_cluster_width(u32)", v.data(), v.size(), 4);
                        if (unsigned got = grapheme_cluster_width(v); got != r.width())
                            mc::violation("pumped-oneshot:" + names(s.substr(0, 4)), "grapheme_cluster_width of " + mc::hex(s) + " is " + std::to_string(got) + ", documented " + std::to_string(r.width()));
                        // what a shorter text does to the object's later width
                        for (char32_t z: reps)
                        {
                            Acc b = a;
                            auto q = r;
                            b.push(z);
                            q.push(wref::cls(z));
                            if (b.width() != q.width())
                                mc::violation("pumped-tail:" + names(s.substr(0, 4)), "accumulated width of " + mc::hex(s) + " then " + mc::hexcp(z) + " is " + std::to_string(b.width()) + ", documented " + std::to_string(q.width()));
                        }
                        a.reset();
                        if (a.width() != 0)
                            mc::violation("reset-width", "width() after reset() is " + std::to_string(a.width()));
                        for (char32_t z: s)
                            a.push(z);
                    }
                    if (mc::enough())
                        return;
                }
            }
        }
}

// --- text width: the sum over grapheme clusters ---
static void texts(int maxLen)
{
    // joint classes of segmentation and width
    std::map<std::pair<gref::Cls, wref::C>, char32_t> m;
    for (uint32_t c = 0; c < ucd::N; ++c)
        if (mc::isScalar(c))
            m.emplace(std::pair(gref::cls(c), wref::cls(c)), c);
    std::vector<char32_t> al;
    for (auto& [k, v]: m)
        al.push_back(v);
    mc::extra["joint segmentation and width classes"] = al.size();
    uint64_t idx = 0;
    auto check = [&](std::u32string const& t) {
        std::string u = mc::utf8(t);
        auto v = g8.put(u);
        mc::cur("grapheme_cluster_width(utf8)", v.data(), v.size(), 1);
        unsigned want = wref::ofText(t), got = grapheme_cluster_width(v);
        mc::states++;
        if (want != got)
            mc::violation("text:" + names(t), "grapheme_cluster_width of UTF-8 " + mc::hex(t) + " is " + std::to_string(got) + ", its clusters add up to " + std::to_string(want));
    };
    if (mc::opt.shard == 0)
        check(U"");
    mc::sequences(int(al.size()), 1, 3, [&](std::vector<int> const& s) {
        if (!mc::mine(idx++) || mc::enough())
            return;
        std::u32string t;
        for (int i: s)
            t += al[size_t(i)];
        check(t);
    });
    // longer ones over the characters that decide the most
    std::u32string small = U"a\u0301\u00A9\uFE0F\uFE0E\u200D\u4E2D\U0001F1E6\U0001F3FB\u0915\u094D\u093E\u231A\n";
    mc::sequences(int(small.size()), 4, maxLen, [&](std::vector<int> const& s) {
        if (!mc::mine(idx++) || mc::enough())
            return;
        std::u32string t;
        for (int i: s)
            t += small[size_t(i)];
        check(t);
    });
    for (uint32_t c = 0; c < ucd::N; ++c)
        if (mc::isScalar(c) && mc::mine(c >> 8) && !mc::enough())
            for (char32_t d: { U'a', U'\u0301', U'\uFE0F', U'\u4E2D', U'\u0903' })
            {
                check({ char32_t(c), d });
                check({ d, char32_t(c) });
            }
    // long texts: periods of two
    for (char32_t p: al)
        for (char32_t q: al)
        {
            if (!mc::mine(idx++) || mc::enough())
                continue;
            for (size_t n: { 9, 33, 64, 65, 257 })
            {
                std::u32string t;
                for (size_t i = 0; i < n; ++i)
                    t += i % 2 ? q : p;
                check(t);
            }
            if (p == q)
            {
                std::u32string t(70001, p);
                check(t);
            }
        }
    // malformed UTF-8 is measured as the well-formed characters in it
    std::vector<std::string> pieces { "a", "\xC3\xA9", "\xCC\x81", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xEF\xB8\x8F", "\xFF", "\xC0", "\xED\xA0\x80" };
    std::vector<std::u32string> means { U"a", U"\u00E9", U"\u0301", U"\u4E2D", U"\U0001F600", U"\uFE0F", U"", U"", U"" };
    mc::sequences(int(pieces.size()), 1, 5, [&](std::vector<int> const& s) {
        if (!mc::mine(idx++) || mc::enough())
            return;
        std::string u;
        std::u32string t;
        for (int i: s)
        {
            u += pieces[size_t(i)];
            t += means[size_t(i)];
        }
        auto v = g8.put(u);
        mc::cur("grapheme_cluster_width(malformed)", v.data(), v.size(), 1);
        unsigned got = grapheme_cluster_width(v), lo = wref::ofText(t);
        mc::states++;
        if (got != lo)
            mc::violation("malformed", "grapheme_cluster_width of " + mc::hex(u) + " is " + std::to_string(got) + ", that of its well-formed characters is " + std::to_string(lo));
    });
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    size_t lines = gref::selfCheck();
    {
        std::map<wref::C, std::pair<char32_t, char32_t>> m;
        for (uint32_t c = 0; c < ucd::N; ++c)
        {
            auto k = wref::cls(c);
            auto it = m.emplace(k, std::pair(c, c)).first;
            it->second.second = c;
        }
        for (auto& [k, v]: m)
        {
            reps.push_back(v.first);
            if (v.second != v.first)
                lasts.push_back(v.second);
            if (mc::opt.shard == 0)
                mc::note(k.name() + " " + mc::hexcp(v.first) + ".." + mc::hexcp(v.second));
        }
    }
    mc::extra["width classes"] = reps.size();
    // the two readings of the rules agree
    if (mc::opt.shard == 0)
    {
        uint64_t n = 0;
        mc::sequences(int(reps.size()), 0, 4, [&](std::vector<int> const& s) {
            std::u32string t;
            wref::State r;
            for (int i: s)
            {
                t += reps[size_t(i)];
                r.push(wref::cls(t.back()));
            }
            ++n;
            if (r.width() != wref::ofCluster(t))
            {
                fprintf(stderr, "the two readings differ: %s %u %u\n", mc::hex(t).c_str(), r.width(), wref::ofCluster(t));
                exit(3);
            }
        });
        mc::extra["sequences on which the two readings of the rules were compared"] = n;
        product(mc::opt.thorough ? 6000000 : 1500000);
    }
    mc::extra["GraphemeBreakTest lines (reference)"] = lines;
    auto t0 = time(nullptr);
    auto lap = [&](char const* w) { if (getenv("MC_TIME")) fprintf(stderr, "%s %ld\n", w, long(time(nullptr) - t0)); };
    lap("product");
    shortSequences(mc::opt.thorough ? 7 : 6);
    lap("short");
    everyCodepoint();
    lap("every");
    pumped();
    lap("pumped");
    texts(mc::opt.thorough ? 7 : 6);
    lap("texts");
    mc::traces = mc::states;
    return mc::finish();
}
