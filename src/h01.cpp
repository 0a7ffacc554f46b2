// H01: texts beyond 2 and 4 GiB (2^31 and 2^32 units) behave as short ones do.
// The huge texts take no memory: one file of a period's length, mapped again and again.
#include "mc.hpp"
#include <csetjmp>
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/word_segmenter.h>
#include <memory>
using namespace unicode;

static size_t const P = size_t(1) << 23; // bytes of a period

/// `bytes` of address space repeating `period` (P bytes); optionally writable; the first `head` bytes are a copy of their own.
class Huge
{
  public:
    Huge(std::string const& period, size_t bytes, bool writable = false): bytes_ { (bytes + P - 1) / P * P + P }
    {
        int const fd = memfd_create("period", 0);
        if (fd < 0 || ftruncate(fd, off_t(P)) || (!period.empty() && pwrite(fd, period.data(), P, 0) != ssize_t(P)))
            fail("memfd");
        base_ = static_cast<char*>(mmap(nullptr, bytes_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (base_ == MAP_FAILED)
            fail("mmap");
        // the last P bytes stay out of bounds
        for (size_t o = 0; o + P < bytes_; o += P)
            if (mmap(base_ + o, P, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                fail("mmap");
        close(fd);
    }
    ~Huge() { munmap(base_, bytes_); }
    Huge(Huge const&) = delete;
    char* data() const { return base_; }
    /// Gives the first page memory of its own.
    void ownHead(std::string const& period)
    {
        if (mmap(base_, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
            fail("mmap");
        memcpy(base_, period.data(), 4096);
    }

  private:
    [[noreturn]] static void fail(char const* what)
    {
        perror(what);
        exit(3);
    }
    size_t bytes_;
    char* base_;
};

// ---------------------------------------------------------------- walking
struct Segment
{
    uint64_t end = 0;
    uint64_t label = 0;
    bool operator==(Segment const&) const = default;
};
struct Walker
{
    virtual ~Walker() = default;
    virtual bool next(Segment& s) = 0;
};
template <typename Seg> struct Views: Walker
{
    char32_t const* b;
    Seg seg;
    bool first = true, more = true;
    Views(char const* p, size_t n): b { reinterpret_cast<char32_t const*>(p) }, seg { std::u32string_view(b, n) } {}
    bool next(Segment& s) override
    {
        if (!more)
            return false;
        if (!first)
            ++seg;
        first = false;
        auto const v = *seg;
        if (v.empty())
            return more = false;
        s = { uint64_t(v.data() - b) + v.size(), v.size() };
        more = seg.codepointsAvailable();
        return true;
    }
};
struct Emoji: Walker
{
    emoji_segmenter seg;
    Emoji(char const* p, size_t n): seg { reinterpret_cast<char32_t const*>(p), n } {}
    bool next(Segment& s) override
    {
        size_t size = 0;
        PresentationStyle style {};
        if (!seg.consume(out(size), out(style)))
            return false;
        s = { size, uint64_t(style) };
        return true;
    }
};
struct Scripts: Walker
{
    script_segmenter seg;
    Scripts(char const* p, size_t n): seg { reinterpret_cast<char32_t const*>(p), n } {}
    bool next(Segment& s) override
    {
        auto const r = seg.consume();
        if (!r)
            return false;
        s = { r->size, uint64_t(r->script) };
        return true;
    }
};
struct Runs: Walker
{
    run_segmenter seg;
    Runs(char const* p, size_t n): seg { reinterpret_cast<char32_t const*>(p), n } {}
    bool next(Segment& s) override
    {
        run_segmenter::range r;
        if (!seg.consume(out(r)))
            return false;
        s = { r.end, uint64_t(std::get<Script>(r.properties)) * 2 + uint64_t(std::get<PresentationStyle>(r.properties)) + ((r.end - r.start) << 16) };
        return true;
    }
};
struct Clusters: Walker
{
    utf8_grapheme_segmenter seg;
    utf8_grapheme_segmenter::iterator i, e;
    uint64_t at = 0;
    Clusters(char const* p, size_t n): seg { std::string_view(p, n) }, i { seg.begin() }, e { seg.end() } {}
    bool next(Segment& s) override
    {
        if (!(i != e))
            return false;
        for (char32_t c: *i)
            at += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        s = { at, (*i).size() };
        ++i;
        return true;
    }
};
/// Calls until the end, stepping over controls; what the receiver gets is counted.
struct Scan: Walker
{
    struct Receiver final: grapheme_cluster_receiver
    {
        uint64_t bytes = 0, columns = 0, events = 0;
        void receiveAsciiSequence(std::string_view s) noexcept override
        {
            bytes += s.size();
            columns += s.size();
            ++events;
        }
        void receiveGraphemeCluster(std::string_view s, size_t n) noexcept override
        {
            bytes += s.size();
            columns += n;
            ++events;
        }
        void receiveInvalidGraphemeCluster() noexcept override { ++events; }
    } receiver;
    scan_state state;
    std::string_view rest;
    char const* b;
    size_t limit;
    Scan(char const* p, size_t n, size_t max = SIZE_MAX): rest { p, n }, b { p }, limit { max } {}
    bool next(Segment& s) override
    {
        if (rest.empty())
            return false;
        receiver.bytes = receiver.columns = receiver.events = 0;
        auto const r = scan_text(state, rest, limit, receiver);
        size_t used = size_t(state.next - rest.data());
        bool const inside = used <= rest.size();
        s = { uint64_t(r.end - b), r.count * 1000003 + receiver.bytes * 10007 + receiver.columns * 101 + receiver.events };
        if (!inside)
        {
            s.label = ~0ull;
            rest = {};
            return true;
        }
        rest.remove_prefix(used);
        if (!rest.empty() && used == 0)
            rest.remove_prefix(1);
        return true;
    }
};
struct Kind
{
    char const* name;
    size_t unit;
    std::unique_ptr<Walker> (*make)(char const*, size_t);
    std::u32string many, one; // contents: many segments, one segment
};
template <typename W> static std::unique_ptr<Walker> make(char const* p, size_t n)
{
    return std::make_unique<W>(p, n);
}
static std::string encoded(std::u32string const& t, size_t unit)
{
    return unit == 1 ? mc::utf8(t) : std::string(reinterpret_cast<char const*>(t.data()), t.size() * 4);
}
/// The text repeated to one period; what is missing at its end filled with line feeds.
static std::string periodOf(std::u32string const& t, size_t unit)
{
    std::string const s = encoded(t, unit), f = encoded(t.size() == 1 ? t : std::u32string(1, U'\n'), unit);
    std::string r;
    r.reserve(P + s.size());
    while (r.size() + s.size() <= P)
        r += s;
    while (r.size() + f.size() <= P)
        r += f;
    r.resize(P, '\n');
    return r;
}

/// The whole text: period for period as in a text of four.
static void whole(Kind const& k, std::u32string const& content, size_t units, char const* what)
{
    std::string const period = periodOf(content, k.unit);
    size_t const per = P / k.unit, tail = units % per, periods = units / per;
    auto const label = std::string(k.name) + ", " + what + ", " + std::to_string(units) + " units";
    mc::cur("walking a huge text", label.data(), label.size(), 1);
    std::vector<Segment> expect[4]; // relative ends: the first period, those in between, the last whole one, the rest
    {
        std::string small;
        for (int i = 0; i < 4; ++i)
            small += period;
        auto const w = k.make(small.data(), 3 * per + tail);
        Segment s;
        while (w->next(s))
        {
            size_t const p = (s.end - 1) / per;
            expect[p].push_back({ s.end - p * per, s.label });
        }
    }
    bool const single = content.size() == 1;
    if (single ? expect[0].size() + expect[1].size() + expect[2].size() != 0 || expect[3].size() != 1 : expect[1] != expect[2])
    {
        mc::violation("short-" + std::string(k.name), label + ": a text of four periods is not segmented periodically");
        return;
    }
    Huge const text(period, units * k.unit);
    auto const w = k.make(text.data(), units);
    Segment s;
    uint64_t n = 0;
    if (single)
    {
        bool const ok = w->next(s);
        ++n;
        if (!ok || s.end != units)
            mc::violation("huge-" + std::string(k.name), label + ": its only segment ends at " + (ok ? std::to_string(s.end) : "(none)"));
        else if (w->next(s))
            mc::violation("huge-" + std::string(k.name), label + ": another segment follows the only one, ending at " + std::to_string(s.end));
    }
    else
    {
        size_t p = 0, i = 0;
        auto const* e = &expect[0];
        while (true)
        {
            while (e && i == e->size())
            {
                ++p;
                i = 0;
                e = p > periods ? nullptr : p == periods ? &expect[3] : p == periods - 1 ? &expect[2] : &expect[1];
                mc::cur("walking a huge text", label.data(), label.size(), 1, long(p));
            }
            bool const got = w->next(s);
            if (!got && !e)
                break;
            if (!got || !e || s.end != (*e)[i].end + p * per || s.label != (*e)[i].label)
            {
                mc::violation("huge-" + std::string(k.name), label + ": segment " + std::to_string(n) + (got ? " ends at " + std::to_string(s.end) + " (value " + std::to_string(s.label) + ")" : " is missing")
                                  + ", expected " + (e ? std::to_string((*e)[i].end + p * per) + " (value " + std::to_string((*e)[i].label) + ")" : "none"));
                break;
            }
            ++i;
            ++n;
        }
    }
    ++mc::states;
    mc::transitions += units;
    mc::traces += n;
    mc::extra["units walked"] += units;
}

/// The beginning of a huge text: every short text in front of mixed content, as in a short text.
static size_t const Sizes[] { (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 2, (1ull << 32) + 3, (1ull << 32) + 4, (1ull << 32) + 100, 3ull << 31 };
static char32_t const Alphabet[] { 'a', '1', '.', '\'', ' ', '\n', 0x301, 0x200D, 0xFE0F, 0x1F600, 0x1F1E6, 0x5D0, 0x915, 0x94D };
static void beginnings(Kind const& k, int depth)
{
    std::string period = periodOf(k.many, k.unit);
    Huge const text(period, Sizes[std::size(Sizes) - 1] * k.unit);
    const_cast<Huge&>(text).ownHead(period);
    uint64_t item = 0;
    mc::sequences(int(std::size(Alphabet)), 0, depth, [&](std::vector<int> const& q) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::u32string t;
        for (int i: q)
            t += Alphabet[i];
        auto const e = encoded(t, k.unit);
        std::string head = e + period.substr(0, 4096 - e.size());
        // not within a character where the two meet (the copy is not a whole number of contents long)
        memcpy(text.data(), head.data(), head.size());
        size_t const upTo = e.size() / k.unit + 160;
        std::vector<Segment> expect;
        Segment s;
        {
            auto const w = k.make(head.data(), 4096 / k.unit);
            while (w->next(s) && s.end <= upTo)
                expect.push_back(s);
        }
        for (size_t const n: Sizes)
        {
            auto const label = std::string(k.name) + ", the beginning of " + std::to_string(n) + " units";
            mc::cur(label.c_str(), e.data(), e.size(), 1);
            auto const w = k.make(text.data(), n);
            for (size_t i = 0; i < expect.size(); ++i)
            {
                bool const got = w->next(s);
                ++mc::transitions;
                if (!got || !(s == expect[i]))
                {
                    mc::violation("beginning-" + std::string(k.name), label + ", " + mc::hex(t) + " first: segment " + std::to_string(i) + (got ? " ends at " + std::to_string(s.end) + " (value " + std::to_string(s.label) + ")" : " is missing")
                                      + ", in a short text it ends at " + std::to_string(expect[i].end) + " (value " + std::to_string(expect[i].label) + ")");
                    break;
                }
            }
            ++mc::states;
            ++mc::traces;
        }
    });
}
static void expectEqual(char const* key, std::string const& what, uint64_t got, uint64_t want)
{
    ++mc::states;
    ++mc::transitions;
    ++mc::traces;
    if (got != want)
        mc::violation(key, what + " gives " + std::to_string(got) + ", expected " + std::to_string(want));
}
/// Numbers of columns and buffer lengths that need more than 31 or 32 bits.
static void limits()
{
    std::vector<size_t> room(std::begin(Sizes), std::end(Sizes));
    for (size_t n: { size_t(1) << 33, size_t(1) << 40, size_t(1) << 63, SIZE_MAX - 1, SIZE_MAX })
        room.push_back(n);
    // a short text with an enormous limit
    uint64_t text32 = 0;
    mc::sequences(int(std::size(Alphabet)), 0, 3, [&](std::vector<int> const& q) {
        if (!mc::mine(text32++))
            return;
        std::u32string t;
        for (int i: q)
            t += Alphabet[i];
        auto const u = mc::utf8(t);
        Scan small(u.data(), u.size(), 100);
        std::vector<Segment> expect;
        Segment s;
        while (small.next(s))
            expect.push_back(s);
        char shortBuffer[64];
        int const wantBytes = u32u8_convert(reinterpret_cast<u32_char_t const*>(t.data()), t.size(), shortBuffer, sizeof shortBuffer);
        for (size_t n: room)
        {
            mc::cur("scan_text with a huge limit", u.data(), u.size(), 1);
            Scan big(u.data(), u.size(), n);
            for (auto& e: expect)
                if (++mc::transitions; !big.next(s) || !(s == e))
                    mc::violation("limit-scan", "scan_text of " + mc::hex(u) + " with room for " + std::to_string(n) + " columns differs from the scan with room for 100");
            char buffer[64];
            int const got = u32u8_convert(reinterpret_cast<u32_char_t const*>(t.data()), t.size(), buffer, n);
            expectEqual("limit-u32u8_convert", "u32u8_convert of " + mc::hex(t) + " with room for " + std::to_string(n) + " bytes", uint64_t(got), uint64_t(wantBytes));
        }
    });
    // huge ASCII text and huge limits
    Huge const text(std::string(P, 'a'), Sizes[std::size(Sizes) - 1]);
    uint64_t item = 0;
    for (size_t n: Sizes)
        for (size_t max: room)
        {
            if (!mc::mine(item++))
                continue;
            if (!mc::opt.thorough && max != n && max != SIZE_MAX && n != Sizes[std::size(Sizes) - 2])
                continue;
            mc::cur("scan_for_text_ascii", nullptr, 0, 1, long(n), long(max));
            expectEqual("huge-ascii", "scan_for_text_ascii of " + std::to_string(n) + " letters with room for " + std::to_string(max),
                        detail::scan_for_text_ascii(std::string_view(text.data(), n), max), std::min(n, max));
            Scan w(text.data(), n, max);
            Segment s;
            w.next(s);
            auto const bytes = std::min(n, max);
            expectEqual("huge-scan", "scan_text of " + std::to_string(n) + " letters with room for " + std::to_string(max) + ": the end", s.end, bytes);
            expectEqual("huge-scan", "scan_text of " + std::to_string(n) + " letters with room for " + std::to_string(max) + ": counts", s.label, bytes * 1000003 + bytes * 10007 + bytes * 101 + 1);
        }
}
struct CountingIterator
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    uint64_t n = 0, sum = 0;
    CountingIterator& operator*() { return *this; }
    CountingIterator& operator++()
    {
        ++n;
        return *this;
    }
    CountingIterator operator++(int)
    {
        ++n;
        return *this;
    }
    template <typename T> CountingIterator& operator=(T v) requires std::is_integral_v<T>
    {
        sum += uint64_t(v) * (n % 1021 + 1);
        return *this;
    }
};
/// The bulk decoders, into a buffer that repeats: the number of units, and the last period of them.
template <typename T> static void bulk(std::u32string const& content, size_t bytes, size_t (*f)(char const*, size_t, T*) noexcept, char const* what)
{
    std::string const period = periodOf(content, 1);
    auto const per = convert_to<T>(std::string_view(period));
    size_t tail = bytes % P;
    while (tail && (period[tail] & 0xC0) == 0x80)
        --tail, --bytes;
    auto const last = convert_to<T>(std::string_view(period).substr(0, tail));
    uint64_t const want = bytes / P * per.size() + last.size();
    Huge const in(period, bytes);
    Huge const to("", bytes * sizeof(T), true); // as convert_to() reserves it
    auto const label = std::string(what) + " of " + std::to_string(bytes) + " bytes";
    mc::cur(label.c_str(), nullptr, 0, 1);
    T* const o = reinterpret_cast<T*>(to.data());
    uint64_t const got = f(in.data(), bytes, o);
    expectEqual("huge-bulk", label, got, want);
    if (got != want)
        return;
    auto const check = (per + last).substr(per.size() + last.size() - P / sizeof(T) / 4);
    if (memcmp(o + got - check.size(), check.data(), check.size() * sizeof(T)) != 0)
        mc::violation("huge-bulk", label + ": wrong characters at the end");
    mc::transitions += bytes;
}
template <typename T, typename S> static void iterated(std::u32string const& content, size_t units, char const* what)
{
    auto const text = convert_to<S>(std::u32string_view(content));
    size_t const per = P / sizeof(S);
    std::basic_string<S> period;
    while (period.size() + text.size() <= per)
        period += text;
    while (period.size() < per)
        period += S('\n');
    size_t tail = 12 * text.size();
    units = units / per * per + tail;
    auto const count = [&](std::basic_string_view<S> v) { return convert_to<T>(v, CountingIterator {}).n; };
    uint64_t const want = units / per * count(period) + count(std::basic_string_view<S>(period).substr(0, tail));
    Huge const in(std::string(reinterpret_cast<char const*>(period.data()), P), units * sizeof(S));
    auto const label = std::string(what) + " of " + std::to_string(units) + " units";
    mc::cur(label.c_str(), nullptr, 0, 1);
    expectEqual("huge-convert", label, count(std::basic_string_view<S>(reinterpret_cast<S const*>(in.data()), units)), want);
    mc::transitions += units;
}

static sigjmp_buf outOfTime;
static void onAlarm(int) { siglongjmp(outOfTime, 1); }
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (mc::deadline)
    {
        // one step may take longer than all the time there is
        if (sigsetjmp(outOfTime, 1))
        {
            mc::capped = true;
            return mc::finish();
        }
        signal(SIGALRM, onAlarm);
        auto const now = time(nullptr);
        alarm(unsigned(mc::deadline > now ? mc::deadline - now : 1));
    }
    std::u32string const many32 = U"a b.1,2 \u05D0\u05D1 \U0001F600\U0001F468\u200D\U0001F469 e\u0301\u4E2D\u6587\uFE0F1\uFE0F\u20E3 \U0001F1E6\U0001F1E7\U0001F1E8 \u0915\u094D\u0915 \u30AB\u30FC x\r\n";
    std::vector<Kind> const kinds {
        { "grapheme clusters", 4, make<Views<grapheme_segmenter>>, many32, U"\u0301" },
        { "words", 4, make<Views<word_segmenter>>, many32, U"a" },
        { "emoji runs", 4, make<Emoji>, many32, U"a" },
        { "script runs", 4, make<Scripts>, many32, U"a" },
        { "runs", 4, make<Runs>, many32, U"a" },
        { "UTF-8 clusters", 1, make<Clusters>, many32, U"" },
        { "scanned text", 1, make<Scan>, many32, U"\u0301" },
    };
    size_t const G2 = (size_t(1) << 31) + 37, G4 = (size_t(1) << 32) + 37;
    for (auto& k: kinds)
        beginnings(k, mc::opt.thorough ? 4 : 3);
    limits();
    // the long walks, with their approximate cost in seconds
    std::vector<std::pair<double, std::function<void()>>> jobs;
    auto walk = [&](int kind, bool one, size_t n) {
        static double const cost[7][2] { { 126, 59 }, { 67, 34 }, { 190, 133 }, { 180, 155 }, { 480, 280 }, { 100, 0 }, { 90, 100 } };
        jobs.emplace_back(cost[kind][one] * double(n) / double(size_t(1) << 32), [&kinds, kind, one, n] { whole(kinds[size_t(kind)], one ? kinds[size_t(kind)].one : kinds[size_t(kind)].many, n, one ? "one segment" : "many segments"); });
    };
    if (mc::opt.thorough)
        for (int kind: { 4, 3, 2, 0, 1, 5, 6 })
            for (bool one: { false, true })
                if (!(kind == 5 && one))
                    walk(kind, one, kind == 6 ? G4 + 1 : G4);
    if (!mc::opt.thorough)
    {
        walk(3, true, G4);
        walk(2, true, G4);
        walk(4, true, G2);
        walk(5, false, G4);
        walk(6, false, G4);
        walk(6, true, G4 + 1);
        walk(1, true, G4);
        walk(0, true, G4);
        walk(1, false, G2);
        walk(0, false, G2);
    }
    std::u32string const mixed = U"plain text \u00E9\u4E2D\U0001F600 and more\n";
    for (size_t n: mc::opt.thorough ? std::vector<size_t> { G2, G4, 3 * G2 } : std::vector<size_t> { G4 })
        for (auto& c: { std::u32string(U"a"), mixed, std::u32string(U"\u4E2D") })
        {
            jobs.emplace_back(12, [=] { bulk<char32_t>(c, n, detail::convert_utf8_to_utf32, "UTF-8 to UTF-32"); });
            jobs.emplace_back(12, [=] { bulk<char16_t>(c, n, detail::convert_utf8_to_utf16, "UTF-8 to UTF-16"); });
        }
    jobs.emplace_back(12, [=] { iterated<char32_t, char>(mixed, G4, "UTF-8 to UTF-32 by iterator"); });
    jobs.emplace_back(12, [=] { iterated<char, char32_t>(mixed, G4, "UTF-32 to UTF-8 by iterator"); });
    if (mc::opt.thorough)
    {
        jobs.emplace_back(12, [=] { iterated<char16_t, char>(mixed, G4, "UTF-8 to UTF-16 by iterator"); });
        jobs.emplace_back(12, [=] { iterated<char, char16_t>(mixed, G4, "UTF-16 to UTF-8 by iterator"); });
        jobs.emplace_back(12, [=] { iterated<char16_t, char32_t>(mixed, G4, "UTF-32 to UTF-16 by iterator"); });
        jobs.emplace_back(12, [=] { iterated<char32_t, char16_t>(mixed, G4, "UTF-16 to UTF-32 by iterator"); });
        jobs.emplace_back(12, [=] { iterated<wchar_t, char>(mixed, G4, "UTF-8 to wide by iterator"); });
    }
    // to the shard with the least to do
    std::stable_sort(jobs.begin(), jobs.end(), [](auto& a, auto& b) { return a.first > b.first; });
    std::vector<double> load(mc::opt.shards);
    for (auto& [cost, job]: jobs)
    {
        auto const least = std::min_element(load.begin(), load.end());
        *least += cost;
        if (unsigned(least - load.begin()) == mc::opt.shard)
            job();
    }
    alarm(0);
    return mc::finish();
}
