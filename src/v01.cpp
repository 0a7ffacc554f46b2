// V01: objects are values.  Every object of the library is taken to every point of every text, then copied, moved, assigned, swapped,
// restored or destroyed in every way; all objects that are left must go on exactly as an object that was never touched.
#include "mc.hpp"
#include "t01.hpp"
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>
#include <type_traits>
#include <utility>
using namespace unicode;
using std::string;
using std::string_view;
using std::u32string_view;
using t01::Text;
extern "C" char const* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1"; }
extern "C" char const* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }

using Log = std::vector<string>;
static void num(string& s, uint64_t v)
{
    do
        s += "0123456789abcdef"[v & 15];
    while (v >>= 4);
    s += ' ';
}
template <typename V> static void str(string& s, V v)
{
    s += '"';
    for (auto c: v)
        num(s, uint64_t(std::make_unsigned_t<std::conditional_t<std::is_same_v<decltype(c), char>, char, uint32_t>>(c)));
    s += '"';
}

// Each use: the object `o` and where it stands in the text (`i`).  step() appends one entry to the log, false: finished.
struct Receiver: grapheme_cluster_receiver
{
    string& s;
    explicit Receiver(string& log): s(log) {}
    void receiveAsciiSequence(string_view t) noexcept override
    {
        s += 'A';
        str(s, t);
    }
    void receiveGraphemeCluster(string_view t, size_t w) noexcept override
    {
        s += 'C';
        str(s, t);
        num(s, w);
    }
    void receiveInvalidGraphemeCluster() noexcept override { s += 'I'; }
};
template <size_t Chunk, size_t Limit> struct ScanUse
{
    static constexpr char const* name = "scan_state";
    using O = scan_state;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u8.size())
            return false;
        Receiver r(s);
        auto in = t.u8.substr(i, Chunk);
        auto res = scan_text(o, in, Limit, r);
        num(s, res.count);
        size_t next = size_t(o.next - t.u8.data());
        if (next <= i && uint8_t(t.u8[i]) >= 0x20)
        {
            res = scan_text(o, in, string::npos, r);
            num(s, res.count);
            next = size_t(o.next - t.u8.data());
        }
        num(s, next);
        i = next > i ? next : i + 1;
        return true;
    }
};
struct DecoderState
{
    static constexpr char const* name = "utf8_decoder_state";
    using O = utf8_decoder_state;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u8.size())
            return false;
        auto const r = from_utf8(o, uint8_t(t.u8[i++]));
        if (std::holds_alternative<Success>(r))
            num(s, std::get<Success>(r).value);
        else
            s += std::holds_alternative<Invalid>(r) ? '!' : '.';
        return true;
    }
};
struct CharDecoder
{
    static constexpr char const* name = "decoder<char>";
    using O = decoder<char>;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u8.size())
            return false;
        if (auto const c = o(uint8_t(t.u8[i++])))
            num(s, *c);
        else
            s += '.';
        return true;
    }
};
struct GraphemeState
{
    static constexpr char const* name = "grapheme_segmenter_state";
    using O = grapheme_segmenter_state;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u32.size())
            return false;
        if (i == 0)
            grapheme_process_init(t.u32[0], o);
        else
            num(s, grapheme_process_breakable(t.u32[i], o));
        ++i;
        return true;
    }
};
struct WordState
{
    static constexpr char const* name = "word_segmenter_state";
    using O = word_segmenter_state;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u32.size())
            return false;
        if (i == 0)
            word_process_init(t.u32[0], o);
        else
            num(s, word_process_breakable(t.u32[i], t.u32.data() + i + 1, t.u32.size() - i - 1, o));
        ++i;
        return true;
    }
};
template <typename S> struct Segmenter
{
    static constexpr char const* name = std::is_same_v<S, grapheme_segmenter> ? "grapheme_segmenter" : "word_segmenter";
    using O = S;
    static O make(Text const& t) { return O(t.u32); }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i || t.u32.empty())
            return false;
        str(s, *o);
        num(s, uint64_t((*o).data() - t.u32.data()));
        i = !o.codepointsAvailable();
        ++o;
        return true;
    }
};
struct Utf8Iter
{
    static constexpr char const* name = "utf8_grapheme_segmenter::iterator";
    using O = utf8_grapheme_segmenter::iterator;
    // the segmenter the iterator came from need not live on
    static O make(Text const& t)
    {
        auto g = std::make_unique<utf8_grapheme_segmenter>(t.u8);
        return g->begin();
    }
    static bool step(O& o, Text const& t, size_t&, string& s)
    {
        if (o == utf8_grapheme_segmenter(t.u8).end())
            return false;
        str(s, u32string_view(*o));
        if (u32string_view(o.value()) != u32string_view(*o))
            s += '?';
        ++o;
        return true;
    }
};
struct Utf8IterPost: Utf8Iter
{
    static constexpr char const* name = "utf8_grapheme_segmenter::iterator (post-increment)";
    static bool step(O& o, Text const& t, size_t&, string& s)
    {
        auto const end = utf8_grapheme_segmenter(t.u8).end();
        if (o == end)
            return false;
        O const before = o;
        O const got = o++;
        str(s, u32string_view(*got));
        if (!(got == before) || got != before || u32string_view(*got) != u32string_view(*before))
            s += "?the iterator a post-increment returns is not the one before";
        return true;
    }
};
struct Utf8Range
{
    static constexpr char const* name = "utf8_grapheme_segmenter";
    using O = utf8_grapheme_segmenter;
    static O make(Text const& t) { return O(t.u8); }
    static bool step(O& o, Text const&, size_t& i, string& s)
    {
        if (i++)
            return false;
        for (auto const& c: o)
            str(s, u32string_view(c));
        return true;
    }
};
struct Scripts
{
    static constexpr char const* name = "script_segmenter";
    using O = script_segmenter;
    static O make(Text const& t) { return O(t.u32); }
    static bool step(O& o, Text const&, size_t&, string& s)
    {
        auto const r = o.consume();
        if (!r)
            return false;
        num(s, r->size);
        num(s, uint64_t(r->script));
        return true;
    }
};
struct Emojis
{
    static constexpr char const* name = "emoji_segmenter";
    using O = emoji_segmenter;
    static O make(Text const& t) { return O(t.u32); }
    static bool step(O& o, Text const& t, size_t&, string& s)
    {
        size_t size = 0;
        PresentationStyle p {};
        if (!o.consume(out(size), out(p)))
            return false;
        num(s, size);
        num(s, uint64_t(p));
        str(s, *o);
        num(s, uint64_t((*o).data() - t.u32.data()));
        num(s, o.isEmoji());
        num(s, o.isText());
        num(s, o.currentCursorBegin());
        num(s, o.currentCursorEnd());
        num(s, o.size());
        num(s, o.buffer() == t.u32.data());
        return true;
    }
};
struct Runs
{
    static constexpr char const* name = "run_segmenter";
    using O = run_segmenter;
    static O make(Text const& t) { return O(t.u32); }
    static bool step(O& o, Text const& t, size_t&, string& s)
    {
        run_segmenter::range r {};
        if (t.u32.empty() || !o.consume(out(r)))
            return false;
        num(s, r.start);
        num(s, r.end);
        num(s, uint64_t(std::get<0>(r.properties)));
        num(s, uint64_t(std::get<1>(r.properties)));
        num(s, o.finished());
        return true;
    }
};
template <Normalization_Form F> struct Norm
{
    static constexpr char const* name = F == Normalization_Form::NFC ? "normalizer (NFC)" : "normalizer (NFKD)";
    using O = normalizer;
    static O make(Text const&) { return O(F); }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i > t.u32.size())
            return false;
        str(s, i < t.u32.size() ? o.feed(t.u32[i]) : o.flush());
        ++i;
        return true;
    }
};
template <Normalization_Form F> struct Norm8
{
    static constexpr char const* name = F == Normalization_Form::NFKC ? "utf8_normalizer (NFKC)" : "utf8_normalizer (NFD)";
    using O = utf8_normalizer;
    static O make(Text const&) { return O(F); }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i > t.u8.size())
            return false;
        str(s, i < t.u8.size() ? o.feed(t.u8.substr(i, 1)) : o.flush());
        ++i;
        return true;
    }
};
struct Width
{
    static constexpr char const* name = "grapheme_cluster_width_accumulator";
    using O = grapheme_cluster_width_accumulator;
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i >= t.u32.size())
            return false;
        o.push(t.u32[i++]);
        num(s, o.width());
        return true;
    }
};
/// results that are returned by value: they must not change when copied, nor through later calls
struct Results
{
    static constexpr char const* name = "returned values";
    struct O
    {
        decltype(full_uppercase(0)) up = full_uppercase(U'a'), fold = full_casefold(U'a');
        codepoint_properties p = codepoint_properties::get(U'a');
        std::vector<char32_t> dec;
        string_view name;
        std::optional<std::span<Script const>> ext;
    };
    static O make(Text const&) { return {}; }
    static bool step(O& o, Text const& t, size_t& i, string& s)
    {
        if (i > t.u32.size())
            return false;
        str(s, o.up.view());
        str(s, o.fold.view());
        num(s, uint64_t(o.p.script));
        num(s, uint64_t(o.p.general_category));
        num(s, uint64_t(o.p.grapheme_cluster_break));
        num(s, uint64_t(o.p.char_width));
        str(s, u32string_view(o.dec.data(), o.dec.size()));
        str(s, o.name);
        if (o.ext)
            for (auto x: *o.ext)
                num(s, uint64_t(x));
        if (i < t.u32.size())
        {
            auto const c = t.u32[i];
            o.up = full_uppercase(c);
            o.fold = full_casefold(c);
            o.p = codepoint_properties::get(c);
            o.dec = canonical_decomposition(c);
            o.name = codepoint_properties::name(c);
            o.ext = script_extensions(c);
        }
        ++i;
        return true;
    }
};

/// An object in a block of its own.
template <typename U> struct Inst
{
    using O = typename U::O;
    O* o = nullptr;
    Text const* t;
    size_t i = 0;
    explicit Inst(Text const& text): t(&text) { new (block()) O(U::make(text)); }
    Inst(Inst const& x): t(x.t), i(x.i) { new (block()) O(static_cast<O const&>(*x.o)); }
    Inst(Inst&& x): t(x.t), i(x.i) { new (block()) O(std::move(*x.o)); }
    Inst& operator=(Inst const& x)
    {
        *o = static_cast<O const&>(*x.o);
        t = x.t;
        i = x.i;
        return *this;
    }
    Inst& operator=(Inst&& x)
    {
        *o = std::move(*x.o);
        t = x.t;
        i = x.i;
        return *this;
    }
    ~Inst() { end(); }
    /// Destroys the object and overwrites where it was.
    void end()
    {
        if (!o)
            return;
        o->~O();
        memset(static_cast<void*>(o), 0xDD, sizeof(O));
        free(o);
        o = nullptr;
    }
    bool step(string& s)
    {
        ++mc::transitions;
        return U::step(*o, *t, i, s);
    }
    string rest()
    {
        string s;
        while (step(s))
            s += '\n';
        return s;
    }
    void advance(size_t n)
    {
        string s;
        while (n-- && step(s)) {}
    }

  private:
    void* block()
    {
        o = static_cast<O*>(aligned_alloc(alignof(std::max_align_t), (sizeof(O) + 15) / 16 * 16));
        if (!o)
            abort();
        memset(static_cast<void*>(o), 0xEE, sizeof(O));
        return o;
    }
};

template <typename U> struct Case
{
    Text const &a, &b;
    size_t p, q;
    Log const &la, &lb; // what is left from each position
    char const* op = "";
    void expect(string const& got, string const& want, char const* who)
    {
        if (got == want)
            return;
        mc::violation(string(U::name) + "/" + op + "/" + who, string(U::name) + " after " + std::to_string(p) + " steps on " + mc::hex(a.u8.data(), a.u8.size(), 1) + ", " + op + " (other object: " + std::to_string(q)
                                                                  + " steps on " + mc::hex(b.u8.data(), b.u8.size(), 1) + "): the " + who + " goes on differently");
    }
    template <typename F> void with(char const* what, F&& f)
    {
        op = what;
        mc::cur(what, a.u8.data(), a.u8.size(), 1, long(p));
        ++mc::traces;
        Inst<U> x(a);
        x.advance(p);
        f(x);
    }
    template <typename F> void with2(char const* what, F&& f)
    {
        op = what;
        mc::cur(what, a.u8.data(), a.u8.size(), 1, long(p), long(q));
        ++mc::traces;
        Inst<U> x(a), y(b);
        x.advance(p);
        y.advance(q);
        f(x, y);
    }
    using I = Inst<U>;
    using O = typename U::O;
    static constexpr bool copies = std::is_copy_constructible_v<O>, assigns = std::is_copy_assignable_v<O>;
    /// Operations on one object.
    void alone()
    {
        string const& ra = la[p];
        if constexpr (copies)
        {
            with("copied, original first", [&](I& x) {
                I c(x);
                expect(x.rest(), ra, "original");
                x.end();
                expect(c.rest(), ra, "copy");
            });
            with("copied, copy first", [&](I& x) {
                I c(x);
                expect(c.rest(), ra, "copy");
                c.end();
                expect(x.rest(), ra, "original");
            });
            with("copied, in turns", [&](I& x) {
                I c(x);
                string s, u;
                for (bool m = true, n = true; m || n;)
                {
                    if (m && (m = x.step(s)))
                        s += '\n';
                    if (n && (n = c.step(u)))
                        u += '\n';
                }
                expect(s, ra, "original");
                expect(u, ra, "copy");
            });
            with("copied twice, originals destroyed", [&](I& x) {
                I c(x);
                x.end();
                I d(c);
                c.end();
                expect(d.rest(), ra, "copy");
            });
            with("moved, original destroyed", [&](I& x) {
                I m(std::move(x));
                x.end();
                expect(m.rest(), ra, "target");
            });
        }
        if constexpr (copies && assigns)
        {
            with("assigned to itself", [&](I& x) {
                auto& same = x;
                x = static_cast<I const&>(same);
                expect(x.rest(), ra, "object");
            });
            with("saved, used up and restored", [&](I& x) {
                I const saved(x);
                expect(x.rest(), ra, "object");
                x = saved;
                expect(x.rest(), ra, "restored object");
                x = saved;
                string s;
                x.step(s);
                x = saved;
                expect(x.rest(), ra, "object restored after one step");
            });
        }
        if constexpr (copies && requires(O const& o) { { o == o } -> std::convertible_to<bool>; })
        {
            with("compared", [&](I& x) {
                I c(x);
                expect(*x.o == *c.o ? "" : "copy differs from the original", "", "comparison");
            });
        }
    }
    /// Operations that involve another object.
    void together()
    {
        string const &ra = la[p], &rb = lb[q];
        if constexpr (assigns)
        {
            with2("assigned over another", [&](I& x, I& y) {
                y = static_cast<I const&>(x);
                expect(x.rest(), ra, "original");
                x.end();
                expect(y.rest(), ra, "assigned");
            });
            with2("move-assigned over another", [&](I& x, I& y) {
                y = std::move(x);
                x.end();
                expect(y.rest(), ra, "target");
            });
            with2("used up and assigned a new one", [&](I& x, I& y) {
                x.rest();
                x = I(b);
                y.end();
                expect(x.rest(), lb[0], "object");
            });
        }
        if constexpr (copies && assigns)
        {
            with2("another assigned over it", [&](I& x, I& y) {
                x = static_cast<I const&>(y);
                expect(x.rest(), rb, "assigned");
                expect(y.rest(), rb, "source");
            });
            with2("moved", [&](I& x, I& y) {
                I m(std::move(x));
                x = static_cast<I const&>(y); // what was moved from can be given a new value
                expect(m.rest(), ra, "target");
                m.end();
                expect(x.rest(), rb, "source, given a new value,");
            });
            with2("swapped with another", [&](I& x, I& y) {
                std::swap(*x.o, *y.o);
                std::swap(x.t, y.t);
                std::swap(x.i, y.i);
                expect(x.rest(), rb, "first");
                x.end();
                expect(y.rest(), ra, "second");
            });
        }
        if constexpr (requires(O& o) { o.reset(); })
        {
            with2("reset", [&](I& x, I& y) {
                x.o->reset();
                x.t = &b;
                x.i = 0;
                expect(x.rest(), lb[0], "object");
                expect(y.rest(), rb, "other object");
            });
        }
    }
};
template <typename U> static Log logs(Text const& t)
{
    Inst<U> x(t);
    Log steps;
    string s;
    while (x.step(s))
    {
        steps.push_back(s + '\n');
        s.clear();
    }
    Log rest(steps.size() + 1);
    for (size_t i = steps.size(); i-- > 0;)
        rest[i] = steps[i] + rest[i + 1];
    if (rest[0].find('?') != string::npos)
        mc::violation(string(U::name) + "/post-increment", string(U::name) + " on " + mc::hex(t.u8.data(), t.u8.size(), 1) + ": " + rest[0].substr(rest[0].find('?') + 1, 80));
    return rest;
}
template <typename U> static void explore(Text const& a, std::vector<Text> const& others)
{
    mc::cur(U::name, a.u8.data(), a.u8.size(), 1);
    // what can be copied and assigned must stay so (a run_segmenter cannot be assigned)
    using O = typename U::O;
    constexpr bool assignable = !std::is_same_v<O, run_segmenter>;
    if (!std::is_copy_constructible_v<O> || (assignable && !std::is_copy_assignable_v<O>))
        mc::violation(string(U::name) + "/copyable", string(U::name) + " cannot be copied");
    Log const la = logs<U>(a);
    std::vector<Log> lb;
    for (auto const& b: others)
        lb.push_back(logs<U>(b));
    ++mc::states;
    for (size_t p = 0; p < la.size(); ++p)
    {
        // long texts: positions around the ends and powers of two
        if (la.size() > 40 && p > 3 && p + 3 < la.size() && (p & (p - 1)) && ((p + 1) & p))
            continue;
        Case<U> { a, a, p, 0, la, la }.alone();
        for (size_t k = 0; k < others.size(); ++k)
        {
            size_t const n = lb[k].size() - 1;
            size_t const at[] = { 0, n / 2, n };
            for (size_t m = 0; m < 3; ++m)
                if (mc::opt.thorough || m == (p + k) % 3)
                    Case<U> { a, others[k], p, at[m], la, lb[k] }.together();
        }
    }
}
template <typename... U> static void all(Text const& a, std::vector<Text> const& others)
{
    (explore<U>(a, others), ...);
}
/// The different ways to construct an object for a text come to the same.
template <typename U, typename... Make> static void constructions(Text const& t, Make&&... make)
{
    string const want = logs<U>(t)[0];
    int n = 0;
    auto one = [&](auto&& m) {
        ++n;
        ++mc::traces;
        auto o = m();
        size_t i = 0;
        string s;
        while (U::step(o, t, i, s))
            s += '\n';
        if (s != want)
            mc::violation(string(U::name) + "/constructed/" + std::to_string(n), string(U::name) + " on " + mc::hex(t.u8.data(), t.u8.size(), 1) + ": constructed in way " + std::to_string(n) + " it finds something else");
    };
    (one(make), ...);
}
static void construct(Text const& t)
{
    mc::cur("construct", t.u8.data(), t.u8.size(), 1);
    auto const* b = t.u32.data();
    auto const* e = b + t.u32.size();
    constructions<Segmenter<grapheme_segmenter>>(t, [&] { return grapheme_segmenter(b, e); }, [&] {
        grapheme_segmenter g;
        g = grapheme_segmenter(t.u32);
        return g;
    });
    constructions<Segmenter<word_segmenter>>(t, [&] { return word_segmenter(b, e); }, [&] {
        word_segmenter g;
        g = word_segmenter(t.u32);
        return g;
    });
    std::u32string const z(t.u32);
    constructions<Scripts>(t, [&] { return script_segmenter(b, t.u32.size()); }, [&] {
        script_segmenter g;
        g = script_segmenter(b, t.u32.size());
        return g;
    }, [&] { return t.u32.find(char32_t(0)) == t.u32.npos ? script_segmenter(z.c_str()) : script_segmenter(t.u32); });
    constructions<Emojis>(t, [&] { return emoji_segmenter(b, t.u32.size()); }, [&] {
        emoji_segmenter g;
        g = emoji_segmenter(b, t.u32.size());
        return g;
    });
    constructions<Runs>(t, [&] { return run_segmenter(b, t.u32.size()); });
    constructions<Utf8Iter>(t, [&] { return utf8_grapheme_segmenter::iterator(t.u8.data(), t.u8.data() + t.u8.size()); });
    // default-constructed objects have nothing
    auto empty = [&](bool ok, char const* what) {
        if (!ok)
            mc::violation(string("default/") + what, string(what) + ": a default-constructed object has something");
    };
    empty((*grapheme_segmenter()).empty() && !grapheme_segmenter().codepointsAvailable(), "grapheme_segmenter");
    empty((*word_segmenter()).empty() && !word_segmenter().codepointsAvailable(), "word_segmenter");
    empty(!script_segmenter().consume(), "script_segmenter");
    size_t n = 0;
    PresentationStyle p {};
    empty(!emoji_segmenter().consume(out(n), out(p)), "emoji_segmenter");
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::vector<string> const pieces {
        "a", "1", " ", "'", "\n", "\xC3\x9F", "\xCC\x81", "\xCC\xA7", "\xD7\x90", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE1\x84\x80", "\xE1\x85\xA1", "\xE2\x80\x8D", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80",
        "\xF0\x9F\x87\xA6", "\xF0\x9F\x8F\xBB", "\xFF", "\xE4\xB8", "\xE1\xB8\x9C",
    };
    auto make = [&](std::vector<int> const& s) {
        std::vector<string> p;
        for (int i: s)
            p.push_back(pieces[size_t(i)]);
        return t01::text(p);
    };
    auto pumped = [&](size_t p, size_t q, size_t n) {
        std::vector<string> v { pieces[p] };
        for (size_t i = 0; i < n; ++i)
            v.push_back(pieces[q]);
        return t01::text(v);
    };
    // the other objects: on a short text, on one with much pending, on a malformed one
    std::vector<Text> others { t01::text({ "e", "\xCC\x81", "\xF0\x9F\x87\xA6", "\xF0\x9F\x87\xA6", "x" }), pumped(0, 6, 30), t01::text({ "\xF0\x9F\x98", "\xE4\xB8\xAD" }) };
    auto everything = [&](Text const& t) {
        all<ScanUse<string::npos, 80>, ScanUse<3, 2>, ScanUse<1, 80>, DecoderState, CharDecoder, GraphemeState, WordState, Segmenter<grapheme_segmenter>, Segmenter<word_segmenter>, Utf8Iter, Utf8IterPost, Utf8Range, Scripts,
            Emojis, Runs, Norm<Normalization_Form::NFC>, Norm<Normalization_Form::NFKD>, Norm8<Normalization_Form::NFKC>, Norm8<Normalization_Form::NFD>, Width, Results>(t, others);
        construct(t);
    };
    uint64_t item = 0;
    mc::sequences(int(pieces.size()), 0, mc::opt.thorough ? 3 : 2, [&](std::vector<int> const& s) {
        if (mc::mine(item++) && !mc::enough())
            everything(make(s));
    });
    for (size_t n: { 5u, 16u, 17u, 40u, 130u })
        for (size_t p = 0; p < pieces.size(); ++p)
            for (size_t q = 0; q < pieces.size(); ++q)
            {
                if (!mc::opt.thorough && n > 17 && (p % 3 || n > 40))
                    continue;
                if (mc::mine(item++) && !mc::enough())
                    everything(pumped(p, q, n));
            }
    // longer histories over the pieces that keep state
    std::vector<int> const keep { 0, 6, 10, 13, 17, 20, 21, 3 };
    mc::sequences(int(keep.size()), 3, mc::opt.thorough ? 4 : 3, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::vector<int> v;
        for (int i: s)
            v.push_back(keep[size_t(i)]);
        everything(make(v));
    });
    mc::sample("utf8_grapheme_segmenter::iterator on a+30 marks: copied, original destroyed and overwritten, copy continued");
    return mc::finish();
}
