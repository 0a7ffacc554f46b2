// N01: normalize() against the reference normalizer. args: path of NormalizationTest.txt
#include "mc.hpp"
#include "normref.hpp"
#include <libunicode/convert.h>
#include <libunicode/normalization.h>
using namespace unicode;

static Normalization_Form F[4] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int n = mc::opt.shard == 0 ? nref::selfCheck(mc::opt.args.at(0)) : 1;
    if (n < 1)
    {
        fprintf(stderr, "reference normalizer fails NormalizationTest.txt (%d)\n", n);
        return 2;
    }
    if (mc::opt.shard == 0)
        mc::note("reference normalizer agrees with all " + std::to_string(n) + " lines of NormalizationTest.txt");
    mc::Guarded g(1 << 20);
    nref::texts(mc::opt.thorough ? 5 : 4, true, [&](std::u32string_view t) {
        if (mc::enough())
            return;
        bool scalars = true;
        for (char32_t c: t)
            scalars = scalars && mc::isScalar(c);
        auto in = g.put32(t);
        std::string u8 = scalars ? mc::utf8(t) : std::string();
        mc::states++;
        for (int k = 0; k < 4; ++k)
        {
            auto want = nref::normalize(t, k);
            mc::cur("normalize(u32)", in.data(), in.size(), 4, k);
            auto got = normalize(in, F[k]);
            mc::traces++;
            if (got != want)
                mc::violation(std::string("normalize-u32-") + nref::FormName[k],
                              std::string(nref::FormName[k]) + "(" + mc::hex(t) + ") = " + mc::hex(got) + " expected " + mc::hex(want));
            if (scalars)
            {
                mc::cur("normalize(u8)", u8.data(), u8.size(), 1, k);
                auto got8 = normalize(std::string_view(u8), F[k]);
                mc::traces++;
                if (got8 != mc::utf8(want))
                    mc::violation(std::string("normalize-u8-") + nref::FormName[k],
                                  std::string(nref::FormName[k]) + "(" + mc::hex(u8) + ") = " + mc::hex(got8) + " expected " + mc::hex(mc::utf8(want)));
            }
        }
        if (t.size() <= 3)
        {
            if (to_nfc(in) != nref::normalize(t, 0) || to_nfd(in) != nref::normalize(t, 1) || to_nfkc(in) != nref::normalize(t, 2) || to_nfkd(in) != nref::normalize(t, 3))
                mc::violation("to_nfx", "to_nfc/nfd/nfkc/nfkd differ from the form for " + mc::hex(t));
            if (scalars
                && (to_nfc(std::string_view(u8)) != mc::utf8(nref::normalize(t, 0)) || to_nfd(std::string_view(u8)) != mc::utf8(nref::normalize(t, 1))
                    || to_nfkc(std::string_view(u8)) != mc::utf8(nref::normalize(t, 2)) || to_nfkd(std::string_view(u8)) != mc::utf8(nref::normalize(t, 3))))
                mc::violation("to_nfx-u8", "to_nfc/nfd/nfkc/nfkd (UTF-8) differ from the form for " + mc::hex(t));
        }
        mc::transitions += t.size();
    });
    mc::sample("e.g. NFC(b U+0301) = " + mc::hex(normalize(U"b\u0301", F[0])));
    return mc::finish();
}
