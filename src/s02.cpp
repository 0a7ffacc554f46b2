// S02/S03: scan_text as a protocol: every reachable state of the scanner (paired with a reference that keeps
// only what has been handed out) x every short text x every limit.
//   s02: limit, start/end/next, bytes and columns       s03: events, stop reason, controls close clusters
#include "mc.hpp"
#include "utf8ref.hpp"
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/width.h>
#include <type_traits>
using namespace unicode;
using std::string;
using std::string_view;

static bool accounting = true; // s02 or s03
static void report(bool isAccounting, string const& key, string const& detail)
{
    if (isAccounting == accounting)
        mc::violation(key, detail);
}

// ---------------------------------------------------------------- reference
struct Tok
{
    bool bad = false;
    char32_t cp = 0;
    size_t begin = 0, end = 0; // offsets in (pending + text)
};
/// How a byte stream falls into characters, malformed sequences, an incomplete tail and controls.
/// (The number of bytes in one malformed sequence is the streaming decoder's, property C04.)
struct Tokens
{
    std::vector<Tok> t;
    bool control = false; // ended in front of a control at a character boundary
    size_t stop = 0;      // offset behind the last token
};
static bool lead(unsigned b) { return b >= 0xC0 && b < 0xF8; }
static Tokens tokenize(string_view s)
{
    Tokens r;
    size_t i = 0;
    while (i < s.size())
    {
        unsigned const b = uint8_t(s[i]);
        if (b < 0x20 || (b >= 0x80 && b <= 0x9F))
        {
            r.control = true;
            break;
        }
        if (b < 0x80)
        {
            r.t.push_back({ false, char32_t(b), i, i + 1 });
            ++i;
            continue;
        }
        if (!lead(b))
        {
            r.t.push_back({ true, 0, i, i + 1 });
            ++i;
            continue;
        }
        size_t const need = b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        char32_t cp = b & (0x7F >> need);
        size_t n = 1;
        bool broken = false;
        size_t len = 0;
        while (n < need)
        {
            if (i + n == s.size())
                goto incomplete;
            {
                unsigned const c = uint8_t(s[i + n]);
                if (c < 0x80 || lead(c))
                {
                    broken = true; // ends in front of it
                    len = n;
                    break;
                }
                if (c >= 0xF8)
                {
                    broken = true; // belongs to nothing else
                    len = n + 1;
                    break;
                }
                cp = cp << 6 | (c & 0x3F);
                ++n;
            }
        }
        if (!broken)
        {
            len = need;
            static char32_t const least[] = { 0, 0, 0x80, 0x800, 0x10000 };
            broken = cp < least[need] || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000);
        }
        r.t.push_back({ broken, broken ? 0 : cp, i, i + len });
        i += len;
    }
incomplete:
    r.stop = r.t.empty() ? 0 : r.t.back().end;
    return r;
}

struct Model
{
    string pending;
    bool open = false;
    grapheme_segmenter_state g {};
    grapheme_cluster_width_accumulator w {};
    size_t reported = 0;
    unsigned selectors = 0; // text presentation selectors in the open cluster (bounds the exploration)
};
struct Event
{
    char kind; // 'a' ASCII, 'c' cluster, 'x' malformed
    size_t begin = 0, end = 0, width = 0;
    bool operator==(Event const&) const = default;
};
static string show(std::vector<Event> const& v)
{
    string r;
    for (auto& e: v)
        r += string(r.empty() ? "" : " ") + (e.kind == 'a' ? "ascii" : e.kind == 'c' ? "cluster" : "malformed")
             + (e.kind == 'x' ? "" : "[" + std::to_string(long(e.begin)) + "," + std::to_string(long(e.end)) + ")")
             + (e.kind == 'c' ? "x" + std::to_string(e.width) : "");
    return r.empty() ? "none" : r;
}
/// State of affairs after having handed out the first k tokens of a call.
struct Step
{
    Model m;
    size_t count = 0, countedHere = 0;
    std::vector<Event> events;
    bool continues = false; // token k joined the cluster open before it
};
size_t const NoEvents = SIZE_MAX, AllEvents = SIZE_MAX - 1;
/// Events are noted for the step `eventsAt`, for all or for none.
static std::vector<Step> simulate(Model const& m0, Tokens const& T, size_t eventsAt)
{
    bool const wantEvents = eventsAt != NoEvents;
    std::vector<Event> events;
    std::vector<Step> r;
    r.reserve(T.t.size() + 1);
    Step s;
    s.m = m0;
    s.m.pending.clear();
    r.push_back(s);
    bool clusterEvent = false; // the last event belongs to the open cluster
    for (auto const& t: T.t)
    {
        s.continues = false;
        if (t.bad)
        {
            s.count++;
            s.m.open = false;
            if (wantEvents)
                events.push_back({ 'x' });
            clusterEvent = false;
        }
        else if (t.cp < 0x80)
        {
            // ASCII is reported apart, one column each, and may be the base of what follows
            s.count++;
            s.countedHere = 0;
            s.m.open = true;
            grapheme_process_init(t.cp, s.m.g);
            s.m.selectors = 0;
            s.m.w.reset();
            s.m.w.push(t.cp);
            s.m.reported = 1;
            if (wantEvents)
            {
                if (!events.empty() && events.back().kind == 'a')
                    events.back().end = t.end;
                else
                    events.push_back({ 'a', t.begin, t.end, 0 });
            }
            clusterEvent = false;
        }
        else
        {
            bool boundary = true;
            if (s.m.open)
                boundary = grapheme_process_breakable(t.cp, s.m.g);
            else
                grapheme_process_init(t.cp, s.m.g);
            if (boundary)
            {
                s.m.selectors = 0;
                s.m.w.reset();
                s.m.w.push(t.cp);
                s.m.open = true;
                s.m.reported = s.m.w.width();
                s.count += s.m.reported;
                s.countedHere = s.m.reported;
                clusterEvent = false;
            }
            else
            {
                s.continues = true;
                s.m.selectors += t.cp == 0xFE0E;
                s.m.w.push(t.cp);
                size_t const now = s.m.w.width();
                if (now >= s.m.reported)
                {
                    s.count += now - s.m.reported;
                    s.countedHere += now - s.m.reported;
                }
                else
                {
                    // columns handed out by an earlier call cannot be taken back
                    size_t const back = std::min(s.m.reported - now, s.countedHere);
                    s.count -= back;
                    s.countedHere -= back;
                }
                s.m.reported = now;
            }
            if (wantEvents)
            {
                if (clusterEvent)
                {
                    events.back().end = t.end;
                    events.back().width = s.m.reported;
                }
                else
                    events.push_back({ 'c', t.begin, t.end, s.m.reported });
            }
            clusterEvent = true;
        }
        r.push_back(s);
        if (eventsAt == AllEvents || eventsAt == r.size() - 1)
            r.back().events = events;
    }
    return r;
}

// ---------------------------------------------------------------- the real scanner
struct Collector final: grapheme_cluster_receiver
{
    char const* base = nullptr;
    std::vector<Event> events;
    void receiveAsciiSequence(string_view s) noexcept override
    {
        Event e { 'a', size_t(s.data() - base), size_t(s.data() - base) + s.size(), 0 };
        if (!events.empty() && events.back().kind == 'a' && events.back().end == e.begin)
            events.back().end = e.end;
        else
            events.push_back(e);
    }
    void receiveGraphemeCluster(string_view s, size_t w) noexcept override
    {
        events.push_back({ 'c', size_t(s.data() - base), size_t(s.data() - base) + s.size(), w });
    }
    void receiveInvalidGraphemeCluster() noexcept override { events.push_back({ 'x' }); }
};

static mc::Guarded G(1 << 20);
static char elsewhere[8];

struct Outcome
{
    bool ok = true;      // consistent with the reference: explore further
    bool progress = false;
    bool atControl = false; // stopped in front of a control with columns left
    size_t used = 0;        // bytes of the text consumed (next - text)
    size_t count = 0;
};

static string describe(Model const& m, string_view text, size_t limit, string const& path)
{
    return "scan_text(" + mc::hex(text) + (text.empty() ? "(empty)" : "") + ", " + (limit == SIZE_MAX ? string("no limit") : std::to_string(limit))
           + ")" + (m.pending.empty() ? "" : " after the incomplete " + mc::hex(m.pending)) + (path.empty() ? "" : " after the calls " + path);
}

static string shape(string_view s)
{
    // a short class description for violation keys
    string r;
    for (unsigned char c: s.substr(0, 14))
        r += c < 0x20 ? 'n' : c < 0x80 ? 'a' : c < 0xA0 ? 'k' : c < 0xC0 ? 'k' : c < 0xE0 ? '2' : c < 0xF0 ? '3' : c < 0xF8 ? '4' : 'x';
    return r;
}

/// Executes one call on `state` and judges it; advances `m` and `state`.
static Outcome call(scan_state& state, Model& m, string_view textIn, size_t limit, int staleNext, std::function<string()> const& path)
{
    Outcome o;
    string const all = m.pending + string(textIn);
    size_t const p = m.pending.size();
    auto const buf = G.put(all);
    char const* const base = buf.data();
    string_view const text(base + p, textIn.size());
    auto const T = tokenize(buf);
    bool const longText = T.t.size() > 200;
    auto steps = simulate(m, T, accounting || longText ? NoEvents : AllEvents);

    scan_state const before = state;
    state.next = staleNext == 0 ? text.data() : staleNext == 1 ? nullptr : staleNext == 2 ? elsewhere + 3 : text.data() - 1;
    mc::cur("scan_text", base, all.size(), 1, long(limit), long(p), staleNext);
    scan_result res;
    Collector c;
    if (accounting)
        res = scan_text(state, text, limit);
    else
    {
        c.base = base;
        res = scan_text(state, text, limit, c);
    }
    mc::transitions++;

    auto where = [&] { return describe(m, textIn, limit, path()); };
    auto fail = [&](bool acc, char const* what, string const& detail) {
        report(acc, string(what) + ":" + (p ? shape(m.pending) + "|" : "") + shape(textIn), where() + ": " + detail);
        o.ok = false;
        return o;
    };
    auto off = [&](char const* q) { return std::to_string(long(q - text.data())); };
    string const got = "count=" + std::to_string(res.count) + " start=" + off(res.start) + " end=" + off(res.end) + " next=" + off(state.next);

    if (!(res.start <= res.end && res.end <= state.next))
        return fail(true, "order", "start <= end <= next does not hold: " + got);
    if (res.start != base)
        return fail(true, "start", "start is not where the first byte handed out lies (" + std::to_string(-long(p)) + "): " + got);
    if (state.next < text.data() || state.next > text.data() + text.size())
        return fail(true, "next", "next lies outside the text: " + got);
    if (res.count > limit)
        return fail(true, "limit", "more columns than the limit: " + got);
    size_t k = 0;
    size_t const endOff = size_t(res.end - base);
    while (k < T.t.size() && T.t[k].end < endOff)
        ++k;
    k = endOff == 0 ? 0 : k + 1;
    if (k > T.t.size() || (k && T.t[k - 1].end != endOff))
        return fail(true, "end", "end is not behind a complete character, malformed sequence, or in front of the control: " + got);
    if (!accounting && longText)
        steps = simulate(m, T, k);
    Step const& s = steps[k];
    if (res.count != s.count)
        return fail(true, "columns", "the text handed out adds " + std::to_string(s.count) + " columns: " + got);

    size_t const nextOff = size_t(state.next - base);
    bool const partial = T.stop < all.size() && !T.control;
    bool pendingNow = false;
    if (k < T.t.size())
    {
        Tok const& n = T.t[k];
        bool const joins = steps[k + 1].continues;
        // a stop in front of token k must be forced by the limit
        bool tooWide = false;
        if (n.bad || n.cp < 0x80)
            tooWide = s.count + 1 > limit;
        else
            for (size_t j = k + 1; j < steps.size() && (j == k + 1 || steps[j].continues); ++j)
                tooWide |= steps[j].count > limit;
        if (!tooWide && res.count != limit)
            return fail(false, "stopped-early", "stopped in front of text that fits: " + got);
        if (joins && k && !T.t[k - 1].bad && T.t[k - 1].cp >= 0x80)
            return fail(false, "split-cluster", "stopped inside a grapheme cluster: " + got);
        if (k == 0 && p ? nextOff != p : nextOff != endOff)
            return fail(true, "gap", "bytes between end and next are neither handed out nor pending: " + got);
        pendingNow = k == 0 && p;
        o.progress = k > 0;
    }
    else
    {
        o.atControl = T.control && nextOff == endOff && res.count < limit;
        if (T.control ? nextOff != endOff : partial ? nextOff != all.size() && !(res.count == limit && nextOff == std::max(p, endOff)) : nextOff != endOff)
            return fail(true, "gap", "bytes between end and next are neither handed out nor an incomplete character: " + got);
        pendingNow = partial && nextOff == all.size();
        if (!pendingNow && k == 0 && p && nextOff == p)
            pendingNow = true;
        o.progress = k > 0 || nextOff > p;
    }
    if (!accounting && c.events != s.events)
        return fail(false, "events", "delivered " + show(c.events) + ", the text handed out is " + show(s.events) + "; " + got);

    // advance the reference
    m = s.m;
    if (pendingNow)
        m.pending = k == 0 && p && nextOff == p ? all.substr(0, p) : all.substr(T.stop);
    if (o.atControl)
        m.open = false;
    if (m.pending.empty() != (state.utf8.expectedLength == 0))
        return fail(true, "pending", string("an incomplete character is ") + (m.pending.empty() ? "kept although none is pending" : "forgotten") + ": " + got);
    o.used = nextOff - p;
    o.count = res.count;
    (void) before;
    return o;
}

// ---------------------------------------------------------------- exploration
struct Node
{
    scan_state s;
    Model m;
    uint32_t parent;
    string text;
    size_t limit;
};
static std::deque<Node> nodes;
static string pathOf(uint32_t n)
{
    std::vector<string> v;
    for (; n; n = nodes[n].parent)
        v.push_back("(" + mc::hex(nodes[n].text) + ", " + (nodes[n].limit == SIZE_MAX ? string("no limit") : std::to_string(nodes[n].limit)) + ")");
    string r;
    for (auto it = v.rbegin(); it != v.rend(); ++it)
        r += (r.empty() ? "" : " ") + *it;
    return r;
}
template <typename T>
static void bytes(string& k, T x)
{
    __builtin_clear_padding(&x);
    k.append(reinterpret_cast<char const*>(&x), sizeof x);
}
static string keyOf(scan_state s, Model const& m)
{
    string k;
    s.next = nullptr;
    if (!s.utf8.expectedLength) // what the decoder leaves behind has no meaning
        s.utf8 = {};
    if constexpr (std::is_trivially_copyable_v<scan_state> && std::is_trivially_copyable_v<grapheme_segmenter_state>
                  && std::is_trivially_copyable_v<grapheme_cluster_width_accumulator>)
    {
        bytes(k, s);
        if (m.open)
        {
            bytes(k, m.g);
            bytes(k, m.w);
            bytes(k, m.reported);
        }
        k += m.pending;
    }
    else
    {
        static uint64_t serial = 0;
        k = std::to_string(serial++);
    }
    return k;
}

static std::vector<string> pieces {
    "a", "1", "\x7F", "\n", "\x85", "\x9B",
    "\xC3\xA9",         // U+00E9
    "\xCC\x81",         // U+0301 Mn
    "\xE0\xA4\x83",     // U+0903 Mc
    "\xE0\xA4\x95",     // U+0915
    "\xE0\xA5\x8D",     // U+094D virama
    "\xE2\x80\x8D",     // ZWJ
    "\xEF\xB8\x8E",     // VS15
    "\xEF\xB8\x8F",     // VS16
    "\xC2\xA9",         // U+00A9
    "\xE2\x8C\x9A",     // U+231A
    "\xE4\xB8\xAD",     // U+4E2D
    "\xF0\x9F\x98\x80", // U+1F600
    "\xF0\x9F\x87\xA6", // RI
    "\xF0\x9F\x8F\xBB", // modifier
    "\xE1\x84\x80",     // Hangul L
    "\xE1\x85\xA1",     // Hangul V
    "\xD8\x80",         // U+0600 prepend
    "\xE2\x80\x8B",     // U+200B
    "\xFF", "\xA9",     // never / stray continuation
    "\xC3", "\xE4", "\xF0", "\xE4\xB8", "\xF0\x9F", "\xF0\x9F\x98", // incomplete
    "\xC0\xAF", "\xED\xA0\x80", "\xF5",
};
static std::vector<string> texts(int n)
{
    std::vector<string> r;
    mc::sequences(int(pieces.size()), n, n, [&](std::vector<int> const& s) {
        string t;
        for (int i: s)
            t += pieces[size_t(i)];
        r.push_back(t);
    });
    return r;
}

/// states the exploration does not continue from
static bool beyond(Model const& m)
{
    static std::set<string> const pend { "", "\xC3", "\xCC", "\xE4", "\xE4\xB8", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xEF\xB8", "\xE0\xA4" };
    return !pend.contains(m.pending) || (m.open && (m.reported > 4 || m.selectors > 1));
}
static void explore()
{
    std::unordered_set<string> seen;
    auto add = [&](scan_state s, Model const& m, uint32_t p, string const& t, size_t lim) {
        s.next = nullptr;
        if (seen.insert(keyOf(s, m)).second)
            nodes.push_back({ s, m, p, t, lim });
    };
    auto const t1 = texts(1), t2 = texts(2), t3 = texts(3);
    std::vector<size_t> limits { 0, 1, 2, 3, SIZE_MAX };
    size_t const maxNodes = 400000;
    add(scan_state {}, Model {}, 0, "", 0);
    size_t maxPend = 0;
    uint64_t cut = 0;
    // closure of the states under calls with one piece (and continuation bytes), capped in columns
    auto cont = std::vector<string> { "\x80", "\x9F", "\xA9", "\xB8", "\xAD", "\xBF", "\x98" };
    for (uint32_t n = 0; n < nodes.size() && !mc::enough(); ++n)
    {
        auto one = [&](string const& t, size_t lim) {
            scan_state s = nodes[n].s;
            Model m = nodes[n].m;
            auto o = call(s, m, t, lim, int((n + lim) % 4), [&] { return pathOf(n); });
            if (!o.ok)
                return;
            maxPend = std::max(maxPend, m.pending.size());
            if (beyond(m))
            {
                ++cut;
                return;
            }
            if (nodes.size() >= maxNodes)
            {
                mc::capped = true;
                return;
            }
            add(s, m, n, t, lim);
        };
        for (auto& t: t1)
            for (size_t lim: limits)
                one(t, lim);
        for (auto& t: cont)
            for (size_t lim: limits)
                one(t, lim);
        one("", 0);
        one("", 5);
    }
    mc::extra["scanner states (paired with the reference)"] = nodes.size();
    mc::extra["transitions cut at clusters wider than 4 columns, with two text selectors, or at other incomplete characters"] = cut;
    // every text of two and three pieces from every state
    size_t const closed = nodes.size();
    uint64_t idx = 0;
    for (uint32_t n = 0; n < closed && !mc::enough(); ++n)
    {
        if (!mc::mine(idx++))
            continue;
        auto one = [&](string const& t, size_t lim, int stale) {
            scan_state s = nodes[n].s;
            Model m = nodes[n].m;
            auto o = call(s, m, t, lim, stale, [&] { return pathOf(n); });
            // what did not fit is taken up by the next call
            if (o.ok && o.used < t.size() && !o.atControl)
                call(s, m, string_view(t).substr(o.used), SIZE_MAX, stale, [&] { return pathOf(n) + " (" + mc::hex(t) + ", " + std::to_string(lim) + ")"; });
        };
        uint64_t q = n;
        for (auto& t: t2)
            if (mc::opt.thorough)
            {
                for (size_t lim: { size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), SIZE_MAX })
                    for (int st: { 0, 2 })
                        one(t, lim, st);
            }
            else
                for (size_t lim: { size_t(1), size_t(2), SIZE_MAX })
                    one(t, lim, int(++q % 4));
    }
    mc::states += closed;
    // every text of three pieces from a cover of the states: those with distinct pending bytes / open cluster kinds
    idx = 0;
    size_t const stride = std::max<size_t>(1, closed / (mc::opt.thorough ? 4000 : 200));
    size_t const top = closed;
    for (size_t n = 0; n < top && !mc::enough(); n += n < 60 ? 1 : stride)
        for (size_t i = 0; i < t3.size(); ++i)
        {
            if (!mc::mine(idx++))
                continue;
            for (size_t lim: { size_t(1), size_t(2), size_t(3), size_t(4), SIZE_MAX })
            {
                scan_state s = nodes[n].s;
                Model m = nodes[n].m;
                call(s, m, t3[i], lim, 0, [&] { return pathOf(uint32_t(n)); });
            }
        }
}

/// Whole streams driven to their end: all cuts, a limit per call; the columns add up.
static uint64_t streams = 0;
static void drive(string const& stream, std::vector<size_t> const& cuts, std::vector<size_t> const& limits)
{
    ++streams;
    scan_state s {};
    Model m;
    size_t pos = 0, sum = 0, li = 0;
    auto path = [&] {
        string r = "of the stream " + mc::hex(stream) + " cut at";
        for (auto c: cuts)
            r += " " + std::to_string(c);
        r += " with limits";
        for (auto l: limits)
            r += " " + (l == SIZE_MAX ? string("none") : std::to_string(l));
        return r;
    };
    size_t stuck = 0;
    bool narrowed = false;
    for (size_t ci = 0; ci <= cuts.size();)
    {
        size_t const e = ci < cuts.size() ? cuts[ci] : stream.size();
        size_t const lim = limits[li++ % limits.size()];
        bool const wasOpen = m.open;
        size_t const reported = m.reported;
        auto o = call(s, m, string_view(stream).substr(pos, e - pos), lim, int(li % 4), path);
        if (!o.ok)
            return;
        if (wasOpen && m.open && m.reported < reported)
            narrowed = true;
        sum += o.count;
        pos += o.used;
        stuck = o.progress ? 0 : stuck + 1;
        if (pos == e)
        {
            ++ci;
            stuck = 0;
            continue;
        }
        unsigned const b = uint8_t(stream[pos]);
        if (m.pending.empty() && (b < 0x20 || (b >= 0x80 && b <= 0x9F)))
        {
            if (!o.atControl)
            {
                // the scanner has not seen the control yet: show it
                auto q = call(s, m, string_view(stream).substr(pos, e - pos), 3, int(li % 4), path);
                if (!q.ok)
                    return;
            }
            m.open = false;
            pos++;
            stuck = 0;
            continue;
        }
        if (stuck > limits.size())
            return; // wider than every limit
    }
    if (accounting && m.pending.empty() && !narrowed)
    {
        // one unlimited call between controls
        size_t want = 0, q = 0;
        auto v = G.put(stream);
        scan_state one {};
        while (q < stream.size())
        {
            mc::cur("scan_text(whole)", v.data(), v.size(), 1, long(q));
            want += scan_text(one, v.substr(q), SIZE_MAX).count;
            size_t const to = size_t(one.next - v.data());
            if (to < q || to > stream.size())
                return;
            q = to + 1; // skip the control
        }
        // a cluster narrowed by a selector inside one call may have been cut between base and selector
        if (sum != want)
            mc::violation("sum:" + shape(stream), path() + ": columns add up to " + std::to_string(sum) + ", in one call they are " + std::to_string(want));
    }
}
static void wholeStreams()
{
    uint64_t idx = 0;
    std::vector<string> small { "a", "1", "\n", "\xC3\xA9", "\xCC\x81", "\xE0\xA4\x83", "\xEF\xB8\x8F", "\xC2\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x87\xA6", "\xE1\x84\x80", "\xFF", "\xE4", "\x9B", "\xE2\x80\x8D", "\xE0\xA5\x8D", "\xE0\xA4\x95" };
    int const L = mc::opt.thorough ? 4 : 3;
    mc::sequences(int(small.size()), 1, L, [&](std::vector<int> const& sq) {
        if (!mc::mine(idx++) || mc::enough())
            return;
        string t;
        for (int i: sq)
            t += small[size_t(i)];
        size_t const n = t.size();
        for (size_t mask = 0; mask < (size_t(1) << (n - 1)); ++mask)
        {
            if (__builtin_popcountll(mask) > (mc::opt.thorough ? 3 : 4))
                continue;
            std::vector<size_t> cuts;
            for (size_t b = 0; b + 1 < n; ++b)
                if (mask >> b & 1)
                    cuts.push_back(b + 1);
            drive(t, cuts, { SIZE_MAX });
            drive(t, cuts, { 2 });
            drive(t, cuts, { 1, 4 });
            drive(t, cuts, { 3, 2, 0 });
        }
    });
    // ASCII runs of every length around the vector widths, between and around complex text
    std::vector<string> mids { "", "\xC3\xA9", "\xCC\x81", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80\xE2\x80\x8D\xF0\x9F\x98\x80", "\n", "\xFF", "\x9B", "\xE0\xA4\x83", "\xE4" };
    for (size_t a = 0; a <= 140; ++a)
        for (auto& mid: mids)
            for (size_t b: { 0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130 })
            {
                if (!mc::mine(idx++) || mc::enough())
                    continue;
                string t;
                for (size_t i = 0; i < a; ++i)
                    t += char('!' + i % 90);
                t += mid;
                for (size_t i = 0; i < b; ++i)
                    t += char('!' + i % 90);
                if (t.empty())
                    continue;
                drive(t, {}, { SIZE_MAX });
                for (size_t lim: { a ? a - 1 : 0, a, a + 1, a + 2, a + b, size_t(80) })
                    if (lim)
                        drive(t, {}, { lim });
                for (size_t c = a > 2 ? a - 2 : 1; c < t.size() && c < a + mid.size() + 3; ++c)
                    drive(t, { c }, { SIZE_MAX });
            }
    // columns and limits around the widths of the integer types
    for (auto& x: small)
        for (auto& pre: { string(), string("a"), string("\xE4\xB8\xAD") })
            for (size_t n: { 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70001 })
            {
                if (!mc::mine(idx++) || mc::enough())
                    continue;
                string t = pre;
                for (size_t i = 0; i < n; ++i)
                    t += x;
                drive(t, {}, { SIZE_MAX });
                for (size_t lim: { n - 1, n, n + 1, 2 * n, size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), size_t(0xFFFFFFFF), size_t(0x100000001) })
                    if (x != "\n" && (n <= 257 || lim > 60000))
                        drive(t, {}, { lim });
                drive(t, { t.size() / 2 / x.size() * x.size() + pre.size() / 3 }, { SIZE_MAX });
            }
    // long texts: periods of two pieces
    for (auto& x: small)
        for (auto& y: small)
        {
            if (!mc::mine(idx++) || mc::enough())
                continue;
            for (size_t n: { 40, 257, 1500 })
            {
                if (n > 300 && &x != &y)
                    continue;
                string t;
                for (size_t i = 0; i < n; ++i)
                    t += i % 2 ? y : x;
                drive(t, {}, { SIZE_MAX });
                if (n <= 300)
                {
                    drive(t, {}, { 80 });
                    std::vector<size_t> cuts;
                    for (size_t c = 7; c < t.size(); c += 7)
                        cuts.push_back(c);
                    drive(t, cuts, { 80, 3 });
                }
            }
        }
}
/// Every code point: alone, behind and in front of text, cut at every byte.
static void everyCodepoint()
{
    for (uint32_t c = 0x80; c < 0x110000; ++c)
    {
        if (!mc::isScalar(c) || !mc::mine(c >> 8) || mc::enough())
            continue;
        string u;
        mc::utf8Append(u, c);
        for (string const& t: { u, "a" + u + "b", u + u + "\n" })
        {
            drive(t, {}, { SIZE_MAX });
            drive(t, {}, { 1, 2 });
        }
        for (size_t i = 1; i < u.size(); ++i)
        {
            drive("x" + u + "\xCC\x81", { i + 1 }, { SIZE_MAX });
            drive(u, { i }, { 1, 0, 2 });
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    accounting = mc::opt.args.empty() || mc::opt.args[0] == "s02";
    auto t0 = time(nullptr);
    auto lap = [&](char const* w) { if (getenv("MC_TIME")) fprintf(stderr, "%s %ld\n", w, long(time(nullptr) - t0)); };
    explore();
    lap("explore");
    wholeStreams();
    lap("streams");
    everyCodepoint();
    lap("codepoints");
    mc::extra["streams driven to their end"] = streams;
    mc::states += streams;
    mc::traces = mc::transitions;
    return mc::finish();
}
