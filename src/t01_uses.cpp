// T01: uses of every interface of the library, compiled with the same instrumentation as the library.
#include "t01.hpp"
#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>
using namespace unicode;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

namespace t01
{
namespace
{
struct Base: Use
{
    Text const& t;
    size_t i = 0;
    explicit Base(Text const& text): t(text)
    {
#ifdef T01_LOG_RESERVE
        log.reserve(T01_LOG_RESERVE); // nothing is allocated for the log later
#endif
    }
    void num(uint64_t v)
    {
        static char const* const d = "0123456789abcdef";
        do
            log += d[v & 15];
        while (v >>= 4);
        log += ' ';
    }
    void str(string_view s)
    {
        log += '"';
        log += s;
        log += '"';
    }
    /// The same whether char is signed or not.
    template <typename C> static uint64_t unit(C c)
    {
        if constexpr (sizeof(C) == 1)
            return uint8_t(c);
        else
            return uint64_t(c);
    }
    template <typename C> void units(C const* p, size_t n)
    {
        log += '[';
        for (size_t k = 0; k < n; ++k)
            num(unit(p[k]));
        log += ']';
    }
    void str(u32string_view s) { units(s.data(), s.size()); }
    void str(std::u16string_view s) { units(s.data(), s.size()); }
};
struct Receiver: grapheme_cluster_receiver
{
    Base& b;
    explicit Receiver(Base& base): b(base) {}
    void receiveAsciiSequence(string_view s) noexcept override
    {
        b.log += 'A';
        b.str(s);
        hook();
    }
    void receiveGraphemeCluster(string_view s, size_t w) noexcept override
    {
        b.log += 'C';
        b.str(s);
        b.num(w);
        hook();
    }
    void receiveInvalidGraphemeCluster() noexcept override
    {
        b.log += 'I';
        hook();
    }
};
template <size_t Chunk, size_t Limit, bool Events> struct Scan: Base
{
    scan_state state;
    Receiver r;
    explicit Scan(Text const& t): Base(t), r(*this) {}
    bool step() override
    {
        if (i >= t.u8.size())
            return false;
        auto in = string_view(t.u8).substr(i, Chunk);
        auto const res = Events ? scan_text(state, in, Limit, r) : scan_text(state, in, Limit);
        num(res.count);
        num(uint64_t(res.start - t.u8.data()));
        num(uint64_t(res.end - t.u8.data()));
        num(uint64_t(state.next - t.u8.data()));
        size_t next = size_t(state.next - t.u8.data());
        if (next <= i && uint8_t(t.u8[i]) >= 0x20)
        {
            // a cluster wider than the limit
            auto const all = Events ? scan_text(state, in, string::npos, r) : scan_text(state, in, string::npos);
            num(all.count);
            next = size_t(state.next - t.u8.data());
        }
        i = next > i ? next : i + 1;
        return true;
    }
};
struct Utf8Decode: Base
{
    utf8_decoder_state s;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u8.size())
            return false;
        auto const r = from_utf8(s, uint8_t(t.u8[i++]));
        if (std::holds_alternative<Success>(r))
            num(std::get<Success>(r).value);
        else
            log += std::holds_alternative<Invalid>(r) ? '!' : '.';
        num(s.expectedLength);
        return true;
    }
};
struct TemplateDecode: Base
{
    decoder<char> d;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u8.size())
            return false;
        if (auto const c = d(uint8_t(t.u8[i++])))
            num(*c);
        else
            log += '.';
        return true;
    }
};
/// convert_to through an output iterator: each step one conversion
struct IteratorConvert: Base
{
    template <typename C> struct It
    {
        using iterator_category = std::output_iterator_tag;
        using value_type = void;
        using difference_type = std::ptrdiff_t;
        using pointer = void;
        using reference = void;
        Base* b;
        It& operator*() { return *this; }
        It& operator++() { return *this; }
        It operator++(int) { return *this; }
        It& operator=(C c)
        {
            b->num(unit(c));
            hook();
            return *this;
        }
    };
    std::u16string u16;
    explicit IteratorConvert(Text const& t): Base(t)
    {
        for (char32_t c: t.u32)
            encoder<char16_t> {}(c, std::back_inserter(u16));
    }
    bool step() override
    {
        switch (i++)
        {
            case 0: convert_to<char32_t>(string_view(t.u8), It<char32_t> { this }); break;
            case 1: convert_to<char16_t>(u32string_view(t.u32), It<char16_t> { this }); break;
            case 2: convert_to<char>(std::u16string_view(u16), It<char> { this }); break;
            case 3: convert_to<char>(u32string_view(t.u32), It<char> { this }); break;
            default: return false;
        }
        return true;
    }
};
struct GraphemeState: Base
{
    grapheme_segmenter_state s;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u32.size())
            return false;
        if (i == 0)
            grapheme_process_init(t.u32[0], s);
        else
            num(grapheme_process_breakable(t.u32[i], s));
        ++i;
        return true;
    }
};
struct GraphemeIter: Base
{
    grapheme_segmenter g;
    bool more;
    explicit GraphemeIter(Text const& t): Base(t), g(u32string_view(t.u32)), more(!t.u32.empty()) {}
    bool step() override
    {
        if (!more)
            return false;
        str(*g);
        more = g.codepointsAvailable();
        ++g;
        return true;
    }
};
struct Utf8Iter: Base
{
    utf8_grapheme_segmenter g;
    utf8_grapheme_segmenter::iterator it, e;
    explicit Utf8Iter(Text const& t): Base(t), g(string_view(t.u8)), it(g.begin()), e(g.end()) {}
    bool step() override
    {
        if (it == e)
            return false;
        str(u32string_view(*it));
        num(uint64_t(it._clusterStart - t.u8.data()));
        ++it;
        return true;
    }
};
struct WordState: Base
{
    word_segmenter_state s;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u32.size())
            return false;
        if (i == 0)
            word_process_init(t.u32[0], s);
        else
            num(word_process_breakable(t.u32[i], t.u32.data() + i + 1, t.u32.size() - i - 1, s));
        ++i;
        return true;
    }
};
struct WordIter: Base
{
    word_segmenter g;
    bool more;
    explicit WordIter(Text const& t): Base(t), g(u32string_view(t.u32)), more(!t.u32.empty()) {}
    bool step() override
    {
        if (!more)
            return false;
        str(*g);
        more = g.codepointsAvailable();
        ++g;
        return true;
    }
};
struct ScriptRuns: Base
{
    script_segmenter g;
    explicit ScriptRuns(Text const& t): Base(t), g(u32string_view(t.u32)) {}
    bool step() override
    {
        size_t size = 0;
        Script s {};
        if (!g.consume(out(size), out(s)))
            return false;
        num(size);
        num(uint64_t(s));
        return true;
    }
};
struct EmojiRuns: Base
{
    emoji_segmenter g;
    explicit EmojiRuns(Text const& t): Base(t), g(u32string_view(t.u32)) {}
    bool step() override
    {
        size_t size = 0;
        PresentationStyle s {};
        if (!g.consume(out(size), out(s)))
            return false;
        num(size);
        num(uint64_t(s));
        str(*g);
        return true;
    }
};
struct Runs: Base
{
    run_segmenter g;
    explicit Runs(Text const& t): Base(t), g(u32string_view(t.u32)) {}
    bool step() override
    {
        run_segmenter::range r {};
        if (t.u32.empty() || !g.consume(out(r)))
            return false;
        num(r.start);
        num(r.end);
        num(uint64_t(std::get<0>(r.properties)));
        num(uint64_t(std::get<1>(r.properties)));
        return true;
    }
};
/// The view a call returned is read when the next call is due: what others did meanwhile must not matter.
template <Normalization_Form F> struct Stream32: Base
{
    normalizer n { F };
    u32string_view held {};
    using Base::Base;
    bool step() override
    {
        if (i > t.u32.size() + 1)
            return false;
        str(held);
        if (i < t.u32.size())
            held = n.feed(t.u32[i]);
        else if (i == t.u32.size())
            held = n.flush();
        ++i;
        return true;
    }
};
template <Normalization_Form F> struct Stream8: Base
{
    utf8_normalizer n { F };
    string_view held {};
    size_t pos = 0;
    using Base::Base;
    bool step() override
    {
        if (i == 2)
            return false;
        str(held);
        if (pos < t.u8.size())
        {
            held = n.feed(string_view(t.u8).substr(pos, 2));
            pos += 2;
        }
        else
        {
            held = i == 0 ? n.flush() : string_view {};
            ++i;
        }
        return true;
    }
};
struct Accumulate: Base
{
    grapheme_cluster_width_accumulator a;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u32.size())
            return false;
        a.push(t.u32[i++]);
        num(a.width());
        return true;
    }
};
struct CStream: Base
{
    u8u32_stream_state_t h = nullptr;
    using Base::Base;
    ~CStream() override
    {
        if (h)
            u8u32_stream_convert_destroy(&h);
    }
    bool step() override
    {
        if (i > t.u8.size())
            return false;
        if (i == 0)
            h = u8u32_stream_convert_create();
        else
        {
            u32_char_t c = 0;
            num(uint64_t(int64_t(u8u32_stream_convert_run(h, u8_char_t(t.u8[i - 1]), &c))));
            num(c);
        }
        ++i;
        return true;
    }
};
struct CCalls: Base
{
    using Base::Base;
    bool step() override
    {
        auto const* p = reinterpret_cast<u32_char_t const*>(t.u32.data());
        auto const* q = reinterpret_cast<u8_char_t const*>(t.u8.data());
        size_t const n = t.u32.size(), m = t.u8.size();
        switch (i++)
        {
            case 0: num(uint64_t(int64_t(u32_gc_count(p, n)))); break;
            case 1: num(uint64_t(int64_t(u8_gc_count(q, m)))); break;
            case 2:
                num(uint64_t(int64_t(u32_gc_width(p, n, GC_WIDTH_MODE_NON_MODIFIABLE))));
                num(uint64_t(int64_t(u32_gc_width(p, n, GC_WIDTH_MODE_MODIFIABLE))));
                break;
            case 3: num(uint64_t(int64_t(u8_gc_width(q, m, GC_WIDTH_MODE_MODIFIABLE)))); break;
            case 4: {
                string buf(n * 4 + 4, '\0');
                int const r = u32u8_convert(p, n, reinterpret_cast<u8_char_t*>(buf.data()), buf.size());
                num(uint64_t(int64_t(r)));
                str(buf);
                break;
            }
            case 5:
                for (size_t k = 0; k + 1 < n; ++k)
                    num(uint64_t(u32_grapheme_unbreakable(p[k], p[k + 1])));
                break;
            default: return false;
        }
        return true;
    }
};
struct Conversions: Base
{
    using Base::Base;
    bool step() override
    {
        switch (i++)
        {
            case 0: str(convert_to<char32_t>(string_view(t.u8))); break;
            case 1: str(convert_to<char16_t>(string_view(t.u8))); break;
            case 2: str(convert_to<char>(u32string_view(t.u32))); break;
            case 3: str(convert_to<char16_t>(u32string_view(t.u32))); break;
            case 4: str(to_utf8(u32string_view(t.u32))); break;
            case 5: str(from_utf8<char32_t>(string_view(t.u8))); break;
            default: return false;
        }
        return true;
    }
};
struct Normalize: Base
{
    using Base::Base;
    bool step() override
    {
        Normalization_Form const f[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
        if (i >= 4)
            return false;
        str(normalize(u32string_view(t.u32), f[i]));
        str(normalize(string_view(t.u8), f[i]));
        num(uint64_t(quick_check(u32string_view(t.u32), f[i])));
        num(is_normalized(string_view(t.u8), f[i]));
        num(is_canonically_equivalent(u32string_view(t.u32), u32string_view(t.u32).substr(t.u32.empty() ? 0 : 1)));
        num(is_compatibility_equivalent(string_view(t.u8), string_view(t.u8)));
        // other forms of the same text
        u32string const d = normalize(u32string_view(t.u32), f[i]);
        num(is_canonically_equivalent(u32string_view(t.u32), u32string_view(d)));
        num(is_compatibility_equivalent(u32string_view(t.u32), u32string_view(d)));
        num(is_normalized(u32string_view(d), f[i]));
        string const d8 = normalize(string_view(t.u8), f[i]);
        num(is_canonically_equivalent(string_view(t.u8), string_view(d8)));
        num(is_compatibility_equivalent(string_view(t.u8), string_view(d8)));
        ++i;
        return true;
    }
};
struct NormalQueries: Base
{
    std::vector<char32_t> held;
    using Base::Base;
    bool step() override
    {
        if (i >= t.u32.size())
            return false;
        auto const c = t.u32[i++];
        num(canonical_combining_class(c));
        units(held.data(), held.size());
        held = canonical_decomposition(c);
        auto k = compatibility_decomposition(c);
        units(k.data(), k.size());
        num(uint64_t(decomposition_type(c)));
        num(is_composition_exclusion(c));
        num(is_full_composition_exclusion(c));
        num(uint64_t(nfc_quick_check(c)));
        num(nfd_quick_check(c));
        num(uint64_t(nfkc_quick_check(c)));
        num(nfkd_quick_check(c));
        char32_t h[4] {};
        num(hangul_decompose(c, h));
        num(hangul_compose(h[0], h[1], h[2]));
        return true;
    }
};
struct CaseStrings: Base
{
    using Base::Base;
    bool step() override
    {
        u32string_view const a = t.u32;
        string_view const b = t.u8;
        switch (i++)
        {
            case 0: str(to_uppercase(a)); str(to_uppercase(b)); break;
            case 1: str(to_lowercase(a)); str(to_lowercase(b)); break;
            case 2: str(to_titlecase(a)); str(to_titlecase(b)); break;
            case 3: str(casefold(a)); str(casefold(b)); break;
            case 4: num(casefold_equals(a, a)); num(casefold_compare(b, string_view("a")) < 0); break;
            case 5: {
                // other spellings of the same text
                u32string const u = to_uppercase(a), l = to_lowercase(a);
                num(casefold_equals(a, u32string_view(u)));
                num(uint64_t(int64_t(casefold_compare(u32string_view(u), u32string_view(l)))));
                string const u8 = to_uppercase(b), l8 = to_lowercase(b);
                num(casefold_equals(b, string_view(u8)));
                num(uint64_t(int64_t(casefold_compare(string_view(u8), string_view(l8)))));
                break;
            }
            default: return false;
        }
        return true;
    }
};
struct CaseQueries: Base
{
    using Base::Base;
    bool step() override
    {
        if (i >= t.u32.size())
            return false;
        auto const c = t.u32[i++];
        for (auto m: { simple_uppercase(c), simple_lowercase(c), simple_titlecase(c), simple_casefold(c) })
            num(m);
        for (auto const& m: { full_uppercase(c), full_lowercase(c), full_titlecase(c), full_casefold(c) })
            str(m.view());
        num(is_cased(c));
        num(is_case_ignorable(c));
        num(changes_when_uppercased(c));
        num(changes_when_lowercased(c));
        num(changes_when_titlecased(c));
        num(changes_when_casefolded(c));
        return true;
    }
};
struct Properties: Base
{
    string_view heldName {};
    std::optional<std::span<Script const>> heldExt {};
    codepoint_properties heldRecord = codepoint_properties::get(0);
    using Base::Base;
    bool step() override
    {
        if (i > t.u32.size())
            return false;
        // what the call before returned, after whatever happened since
        str(heldName);
        if (heldExt)
            units(heldExt->data(), heldExt->size());
        num(uint64_t(heldRecord.script));
        num(uint64_t(heldRecord.char_width));
        num(uint64_t(heldRecord.flags));
        if (i < t.u32.size())
        {
            auto const c = t.u32[i];
            heldName = codepoint_properties::name(c);
            heldExt = script_extensions(c);
            heldRecord = codepoint_properties::get(c);
            num(uint64_t(plane(c)));
            num(uint64_t(script(c)));
            num(uint64_t(block(c)));
            num(uint64_t(grapheme_cluster_break(c)));
            num(uint64_t(east_asian_width(c)));
            num(uint64_t(general_category::get(c)));
            num(is_emoji(c) | is_emoji_component(c) << 1 | is_emoji_modifier(c) << 2 | is_emoji_modifier_base(c) << 3 | is_emoji_presentation(c) << 4 | is_extended_pictographic(c) << 5);
            num(is_mirrored(c));
            num(bidi_mirroring_glyph(c));
            num(contains(Core_Property::Alphabetic, c) | contains(Core_Property::Cased, c) << 1 | contains(Core_Property::Grapheme_Extend, c) << 2);
            num(width(c));
        }
        ++i;
        return true;
    }
};
struct Widths: Base
{
    using Base::Base;
    bool step() override
    {
        switch (i++)
        {
            case 0: num(grapheme_cluster_width(u32string_view(t.u32))); break;
            case 1: num(grapheme_cluster_width(string_view(t.u8))); break;
            case 2: num(detail::scan_for_text_ascii(string_view(t.u8), 1000)); break;
            default: return false;
        }
        return true;
    }
};
template <typename T> Use* make(Text const& t) { return new T(t); }
struct Kind
{
    char const* name;
    Use* (*make)(Text const&);
    bool callbacks;
};
Kind const all[] = {
    { "scan_text (events)", make<Scan<string::npos, 80, true>>, true },
    { "scan_text (events, 3 columns)", make<Scan<string::npos, 3, true>>, true },
    { "scan_text (byte by byte)", make<Scan<1, 80, true>>, true },
    { "scan_text (no receiver)", make<Scan<2, 80, false>>, false },
    { "from_utf8", make<Utf8Decode>, false },
    { "decoder<char>", make<TemplateDecode>, false },
    { "convert_to (output iterator)", make<IteratorConvert>, true },
    { "grapheme_process", make<GraphemeState>, false },
    { "grapheme_segmenter", make<GraphemeIter>, false },
    { "utf8_grapheme_segmenter", make<Utf8Iter>, false },
    { "word_process", make<WordState>, false },
    { "word_segmenter", make<WordIter>, false },
    { "script_segmenter", make<ScriptRuns>, false },
    { "emoji_segmenter", make<EmojiRuns>, false },
    { "run_segmenter", make<Runs>, false },
    { "normalizer(NFC)", make<Stream32<Normalization_Form::NFC>>, false },
    { "normalizer(NFKD)", make<Stream32<Normalization_Form::NFKD>>, false },
    { "utf8_normalizer(NFC)", make<Stream8<Normalization_Form::NFC>>, false },
    { "utf8_normalizer(NFD)", make<Stream8<Normalization_Form::NFD>>, false },
    { "width accumulator", make<Accumulate>, false },
    { "u8u32_stream_convert", make<CStream>, false },
    { "C calls", make<CCalls>, false },
    { "conversions", make<Conversions>, false },
    { "normalize", make<Normalize>, false },
    { "normalization queries", make<NormalQueries>, false },
    { "case conversion", make<CaseStrings>, false },
    { "case queries", make<CaseQueries>, false },
    { "property queries", make<Properties>, false },
    { "widths", make<Widths>, false },
};
} // namespace
int kinds() { return int(std::size(all)); }
char const* kindName(int k) { return all[k].name; }
bool hasCallbacks(int k) { return all[k].callbacks; }
Use* create(int k, Text const& t) { return all[k].make(t); }
} // namespace t01
