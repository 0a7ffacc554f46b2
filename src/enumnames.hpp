// Generated by lib/mkenumnames.py: names in the Unicode data <-> enumerators of the library.
#pragma once
#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_enums.h>

#include <string>
#include <utility>
#include <vector>
namespace enumnames
{
template <typename E> using Map = std::vector<std::pair<std::string, E>>;
template <typename E> std::string nameOf(Map<E> const& m, E e)
{
    for (auto& [n, v]: m)
        if (v == e)
            return n;
    return "enumerator " + std::to_string(int(e));
}
template <typename E> E valueOf(Map<E> const& m, std::string const& s)
{
    for (auto& [n, v]: m)
        if (n == s)
            return v;
    return E(250);
}
inline Map<unicode::Script> const& script()
{
    static Map<unicode::Script> const m = {
        { "Adlam", unicode::Script::Adlam },
        { "Ahom", unicode::Script::Ahom },
        { "Anatolian_Hieroglyphs", unicode::Script::Anatolian_Hieroglyphs },
        { "Arabic", unicode::Script::Arabic },
        { "Armenian", unicode::Script::Armenian },
        { "Avestan", unicode::Script::Avestan },
        { "Balinese", unicode::Script::Balinese },
        { "Bamum", unicode::Script::Bamum },
        { "Bassa_Vah", unicode::Script::Bassa_Vah },
        { "Batak", unicode::Script::Batak },
        { "Bengali", unicode::Script::Bengali },
        { "Bhaiksuki", unicode::Script::Bhaiksuki },
        { "Bopomofo", unicode::Script::Bopomofo },
        { "Brahmi", unicode::Script::Brahmi },
        { "Braille", unicode::Script::Braille },
        { "Buginese", unicode::Script::Buginese },
        { "Buhid", unicode::Script::Buhid },
        { "Canadian_Aboriginal", unicode::Script::Canadian_Aboriginal },
        { "Carian", unicode::Script::Carian },
        { "Caucasian_Albanian", unicode::Script::Caucasian_Albanian },
        { "Chakma", unicode::Script::Chakma },
        { "Cham", unicode::Script::Cham },
        { "Cherokee", unicode::Script::Cherokee },
        { "Chorasmian", unicode::Script::Chorasmian },
        { "Common", unicode::Script::Common },
        { "Coptic", unicode::Script::Coptic },
        { "Cuneiform", unicode::Script::Cuneiform },
        { "Cypriot", unicode::Script::Cypriot },
        { "Cypro_Minoan", unicode::Script::Cypro_Minoan },
        { "Cyrillic", unicode::Script::Cyrillic },
        { "Deseret", unicode::Script::Deseret },
        { "Devanagari", unicode::Script::Devanagari },
        { "Dives_Akuru", unicode::Script::Dives_Akuru },
        { "Dogra", unicode::Script::Dogra },
        { "Duployan", unicode::Script::Duployan },
        { "Egyptian_Hieroglyphs", unicode::Script::Egyptian_Hieroglyphs },
        { "Elbasan", unicode::Script::Elbasan },
        { "Elymaic", unicode::Script::Elymaic },
        { "Ethiopic", unicode::Script::Ethiopic },
        { "Georgian", unicode::Script::Georgian },
        { "Glagolitic", unicode::Script::Glagolitic },
        { "Gothic", unicode::Script::Gothic },
        { "Grantha", unicode::Script::Grantha },
        { "Greek", unicode::Script::Greek },
        { "Gujarati", unicode::Script::Gujarati },
        { "Gunjala_Gondi", unicode::Script::Gunjala_Gondi },
        { "Gurmukhi", unicode::Script::Gurmukhi },
        { "Han", unicode::Script::Han },
        { "Hangul", unicode::Script::Hangul },
        { "Hanifi_Rohingya", unicode::Script::Hanifi_Rohingya },
        { "Hanunoo", unicode::Script::Hanunoo },
        { "Hatran", unicode::Script::Hatran },
        { "Hebrew", unicode::Script::Hebrew },
        { "Hiragana", unicode::Script::Hiragana },
        { "Imperial_Aramaic", unicode::Script::Imperial_Aramaic },
        { "Inherited", unicode::Script::Inherited },
        { "Inscriptional_Pahlavi", unicode::Script::Inscriptional_Pahlavi },
        { "Inscriptional_Parthian", unicode::Script::Inscriptional_Parthian },
        { "Javanese", unicode::Script::Javanese },
        { "Kaithi", unicode::Script::Kaithi },
        { "Kannada", unicode::Script::Kannada },
        { "Katakana", unicode::Script::Katakana },
        { "Kawi", unicode::Script::Kawi },
        { "Kayah_Li", unicode::Script::Kayah_Li },
        { "Kharoshthi", unicode::Script::Kharoshthi },
        { "Khitan_Small_Script", unicode::Script::Khitan_Small_Script },
        { "Khmer", unicode::Script::Khmer },
        { "Khojki", unicode::Script::Khojki },
        { "Khudawadi", unicode::Script::Khudawadi },
        { "Lao", unicode::Script::Lao },
        { "Latin", unicode::Script::Latin },
        { "Lepcha", unicode::Script::Lepcha },
        { "Limbu", unicode::Script::Limbu },
        { "Linear_A", unicode::Script::Linear_A },
        { "Linear_B", unicode::Script::Linear_B },
        { "Lisu", unicode::Script::Lisu },
        { "Lycian", unicode::Script::Lycian },
        { "Lydian", unicode::Script::Lydian },
        { "Mahajani", unicode::Script::Mahajani },
        { "Makasar", unicode::Script::Makasar },
        { "Malayalam", unicode::Script::Malayalam },
        { "Mandaic", unicode::Script::Mandaic },
        { "Manichaean", unicode::Script::Manichaean },
        { "Marchen", unicode::Script::Marchen },
        { "Masaram_Gondi", unicode::Script::Masaram_Gondi },
        { "Medefaidrin", unicode::Script::Medefaidrin },
        { "Meetei_Mayek", unicode::Script::Meetei_Mayek },
        { "Mende_Kikakui", unicode::Script::Mende_Kikakui },
        { "Meroitic_Cursive", unicode::Script::Meroitic_Cursive },
        { "Meroitic_Hieroglyphs", unicode::Script::Meroitic_Hieroglyphs },
        { "Miao", unicode::Script::Miao },
        { "Modi", unicode::Script::Modi },
        { "Mongolian", unicode::Script::Mongolian },
        { "Mro", unicode::Script::Mro },
        { "Multani", unicode::Script::Multani },
        { "Myanmar", unicode::Script::Myanmar },
        { "Nabataean", unicode::Script::Nabataean },
        { "Nag_Mundari", unicode::Script::Nag_Mundari },
        { "Nandinagari", unicode::Script::Nandinagari },
        { "New_Tai_Lue", unicode::Script::New_Tai_Lue },
        { "Newa", unicode::Script::Newa },
        { "Nko", unicode::Script::Nko },
        { "Nushu", unicode::Script::Nushu },
        { "Nyiakeng_Puachue_Hmong", unicode::Script::Nyiakeng_Puachue_Hmong },
        { "Ogham", unicode::Script::Ogham },
        { "Ol_Chiki", unicode::Script::Ol_Chiki },
        { "Old_Hungarian", unicode::Script::Old_Hungarian },
        { "Old_Italic", unicode::Script::Old_Italic },
        { "Old_North_Arabian", unicode::Script::Old_North_Arabian },
        { "Old_Permic", unicode::Script::Old_Permic },
        { "Old_Persian", unicode::Script::Old_Persian },
        { "Old_Sogdian", unicode::Script::Old_Sogdian },
        { "Old_South_Arabian", unicode::Script::Old_South_Arabian },
        { "Old_Turkic", unicode::Script::Old_Turkic },
        { "Old_Uyghur", unicode::Script::Old_Uyghur },
        { "Oriya", unicode::Script::Oriya },
        { "Osage", unicode::Script::Osage },
        { "Osmanya", unicode::Script::Osmanya },
        { "Pahawh_Hmong", unicode::Script::Pahawh_Hmong },
        { "Palmyrene", unicode::Script::Palmyrene },
        { "Pau_Cin_Hau", unicode::Script::Pau_Cin_Hau },
        { "Phags_Pa", unicode::Script::Phags_Pa },
        { "Phoenician", unicode::Script::Phoenician },
        { "Psalter_Pahlavi", unicode::Script::Psalter_Pahlavi },
        { "Rejang", unicode::Script::Rejang },
        { "Runic", unicode::Script::Runic },
        { "Samaritan", unicode::Script::Samaritan },
        { "Saurashtra", unicode::Script::Saurashtra },
        { "Sharada", unicode::Script::Sharada },
        { "Shavian", unicode::Script::Shavian },
        { "Siddham", unicode::Script::Siddham },
        { "SignWriting", unicode::Script::SignWriting },
        { "Sinhala", unicode::Script::Sinhala },
        { "Sogdian", unicode::Script::Sogdian },
        { "Sora_Sompeng", unicode::Script::Sora_Sompeng },
        { "Soyombo", unicode::Script::Soyombo },
        { "Sundanese", unicode::Script::Sundanese },
        { "Syloti_Nagri", unicode::Script::Syloti_Nagri },
        { "Syriac", unicode::Script::Syriac },
        { "Tagalog", unicode::Script::Tagalog },
        { "Tagbanwa", unicode::Script::Tagbanwa },
        { "Tai_Le", unicode::Script::Tai_Le },
        { "Tai_Tham", unicode::Script::Tai_Tham },
        { "Tai_Viet", unicode::Script::Tai_Viet },
        { "Takri", unicode::Script::Takri },
        { "Tamil", unicode::Script::Tamil },
        { "Tangsa", unicode::Script::Tangsa },
        { "Tangut", unicode::Script::Tangut },
        { "Telugu", unicode::Script::Telugu },
        { "Thaana", unicode::Script::Thaana },
        { "Thai", unicode::Script::Thai },
        { "Tibetan", unicode::Script::Tibetan },
        { "Tifinagh", unicode::Script::Tifinagh },
        { "Tirhuta", unicode::Script::Tirhuta },
        { "Toto", unicode::Script::Toto },
        { "Ugaritic", unicode::Script::Ugaritic },
        { "Vai", unicode::Script::Vai },
        { "Vithkuqi", unicode::Script::Vithkuqi },
        { "Wancho", unicode::Script::Wancho },
        { "Warang_Citi", unicode::Script::Warang_Citi },
        { "Yezidi", unicode::Script::Yezidi },
        { "Yi", unicode::Script::Yi },
        { "Zanabazar_Square", unicode::Script::Zanabazar_Square },
        { "Unknown", unicode::Script::Unknown },
    };
    return m;
}
inline Map<unicode::General_Category> const& gc()
{
    static Map<unicode::General_Category> const m = {
        { "Cc", unicode::General_Category::Control },
        { "Cf", unicode::General_Category::Format },
        { "Cn", unicode::General_Category::Unassigned },
        { "Co", unicode::General_Category::Private_Use },
        { "Cs", unicode::General_Category::Surrogate },
        { "Ll", unicode::General_Category::Lowercase_Letter },
        { "Lm", unicode::General_Category::Modifier_Letter },
        { "Lo", unicode::General_Category::Other_Letter },
        { "Lt", unicode::General_Category::Titlecase_Letter },
        { "Lu", unicode::General_Category::Uppercase_Letter },
        { "Mc", unicode::General_Category::Spacing_Mark },
        { "Me", unicode::General_Category::Enclosing_Mark },
        { "Mn", unicode::General_Category::Nonspacing_Mark },
        { "Nd", unicode::General_Category::Decimal_Number },
        { "Nl", unicode::General_Category::Letter_Number },
        { "No", unicode::General_Category::Other_Number },
        { "Pc", unicode::General_Category::Connector_Punctuation },
        { "Pd", unicode::General_Category::Dash_Punctuation },
        { "Pe", unicode::General_Category::Close_Punctuation },
        { "Pf", unicode::General_Category::Final_Punctuation },
        { "Pi", unicode::General_Category::Initial_Punctuation },
        { "Po", unicode::General_Category::Other_Punctuation },
        { "Ps", unicode::General_Category::Open_Punctuation },
        { "Sc", unicode::General_Category::Currency_Symbol },
        { "Sk", unicode::General_Category::Modifier_Symbol },
        { "Sm", unicode::General_Category::Math_Symbol },
        { "So", unicode::General_Category::Other_Symbol },
        { "Zl", unicode::General_Category::Line_Separator },
        { "Zp", unicode::General_Category::Paragraph_Separator },
        { "Zs", unicode::General_Category::Space_Separator },
    };
    return m;
}
inline Map<unicode::Grapheme_Cluster_Break> const& gcb()
{
    static Map<unicode::Grapheme_Cluster_Break> const m = {
        { "CR", unicode::Grapheme_Cluster_Break::CR },
        { "Control", unicode::Grapheme_Cluster_Break::Control },
        { "Extend", unicode::Grapheme_Cluster_Break::Extend },
        { "L", unicode::Grapheme_Cluster_Break::L },
        { "LF", unicode::Grapheme_Cluster_Break::LF },
        { "LV", unicode::Grapheme_Cluster_Break::LV },
        { "LVT", unicode::Grapheme_Cluster_Break::LVT },
        { "Prepend", unicode::Grapheme_Cluster_Break::Prepend },
        { "Regional_Indicator", unicode::Grapheme_Cluster_Break::Regional_Indicator },
        { "SpacingMark", unicode::Grapheme_Cluster_Break::SpacingMark },
        { "T", unicode::Grapheme_Cluster_Break::T },
        { "V", unicode::Grapheme_Cluster_Break::V },
        { "ZWJ", unicode::Grapheme_Cluster_Break::ZWJ },
        { "Other", unicode::Grapheme_Cluster_Break::Other },
    };
    return m;
}
inline Map<unicode::Word_Break> const& wb()
{
    static Map<unicode::Word_Break> const m = {
        { "ALetter", unicode::Word_Break::ALetter },
        { "CR", unicode::Word_Break::CR },
        { "Double_Quote", unicode::Word_Break::Double_Quote },
        { "Extend", unicode::Word_Break::Extend },
        { "ExtendNumLet", unicode::Word_Break::ExtendNumLet },
        { "Format", unicode::Word_Break::Format },
        { "Hebrew_Letter", unicode::Word_Break::Hebrew_Letter },
        { "Katakana", unicode::Word_Break::Katakana },
        { "LF", unicode::Word_Break::LF },
        { "MidLetter", unicode::Word_Break::MidLetter },
        { "MidNum", unicode::Word_Break::MidNum },
        { "MidNumLet", unicode::Word_Break::MidNumLet },
        { "Newline", unicode::Word_Break::Newline },
        { "Numeric", unicode::Word_Break::Numeric },
        { "Regional_Indicator", unicode::Word_Break::Regional_Indicator },
        { "Single_Quote", unicode::Word_Break::Single_Quote },
        { "WSegSpace", unicode::Word_Break::WSegSpace },
        { "ZWJ", unicode::Word_Break::ZWJ },
        { "Other", unicode::Word_Break::Other },
    };
    return m;
}
inline Map<unicode::Indic_Conjunct_Break> const& incb()
{
    static Map<unicode::Indic_Conjunct_Break> const m = {
        { "Consonant", unicode::Indic_Conjunct_Break::Consonant },
        { "Extend", unicode::Indic_Conjunct_Break::Extend },
        { "Linker", unicode::Indic_Conjunct_Break::Linker },
        { "None", unicode::Indic_Conjunct_Break::None },
    };
    return m;
}
inline Map<unicode::EastAsianWidth> const& eaw()
{
    static Map<unicode::EastAsianWidth> const m = {
        { "A", unicode::EastAsianWidth::Ambiguous },
        { "F", unicode::EastAsianWidth::FullWidth },
        { "H", unicode::EastAsianWidth::HalfWidth },
        { "N", unicode::EastAsianWidth::Neutral },
        { "Na", unicode::EastAsianWidth::Narrow },
        { "W", unicode::EastAsianWidth::Wide },
    };
    return m;
}
inline Map<unicode::Age> const& age()
{
    static Map<unicode::Age> const m = {
        { "1.1", unicode::Age::V1_1 },
        { "2.0", unicode::Age::V2_0 },
        { "2.1", unicode::Age::V2_1 },
        { "3.0", unicode::Age::V3_0 },
        { "3.1", unicode::Age::V3_1 },
        { "3.2", unicode::Age::V3_2 },
        { "4.0", unicode::Age::V4_0 },
        { "4.1", unicode::Age::V4_1 },
        { "5.0", unicode::Age::V5_0 },
        { "5.1", unicode::Age::V5_1 },
        { "5.2", unicode::Age::V5_2 },
        { "6.0", unicode::Age::V6_0 },
        { "6.1", unicode::Age::V6_1 },
        { "6.2", unicode::Age::V6_2 },
        { "6.3", unicode::Age::V6_3 },
        { "7.0", unicode::Age::V7_0 },
        { "8.0", unicode::Age::V8_0 },
        { "9.0", unicode::Age::V9_0 },
        { "10.0", unicode::Age::V10_0 },
        { "11.0", unicode::Age::V11_0 },
        { "12.0", unicode::Age::V12_0 },
        { "12.1", unicode::Age::V12_1 },
        { "13.0", unicode::Age::V13_0 },
        { "14.0", unicode::Age::V14_0 },
        { "15.0", unicode::Age::V15_0 },
        { "15.1", unicode::Age::V15_1 },
        { "NA", unicode::Age::Unassigned },
    };
    return m;
}
inline Map<unicode::Block> const& block()
{
    static Map<unicode::Block> const m = {
        { "Adlam", unicode::Block::Adlam },
        { "Aegean Numbers", unicode::Block::Aegean_Numbers },
        { "Ahom", unicode::Block::Ahom },
        { "Alchemical Symbols", unicode::Block::Alchemical_Symbols },
        { "Alphabetic Presentation Forms", unicode::Block::Alphabetic_Presentation_Forms },
        { "Anatolian Hieroglyphs", unicode::Block::Anatolian_Hieroglyphs },
        { "Ancient Greek Musical Notation", unicode::Block::Ancient_Greek_Musical_Notation },
        { "Ancient Greek Numbers", unicode::Block::Ancient_Greek_Numbers },
        { "Ancient Symbols", unicode::Block::Ancient_Symbols },
        { "Arabic", unicode::Block::Arabic },
        { "Arabic Extended-A", unicode::Block::Arabic_Extended_A },
        { "Arabic Extended-B", unicode::Block::Arabic_Extended_B },
        { "Arabic Extended-C", unicode::Block::Arabic_Extended_C },
        { "Arabic Mathematical Alphabetic Symbols", unicode::Block::Arabic_Mathematical_Alphabetic_Symbols },
        { "Arabic Presentation Forms-A", unicode::Block::Arabic_Presentation_Forms_A },
        { "Arabic Presentation Forms-B", unicode::Block::Arabic_Presentation_Forms_B },
        { "Arabic Supplement", unicode::Block::Arabic_Supplement },
        { "Armenian", unicode::Block::Armenian },
        { "Arrows", unicode::Block::Arrows },
        { "Avestan", unicode::Block::Avestan },
        { "Balinese", unicode::Block::Balinese },
        { "Bamum", unicode::Block::Bamum },
        { "Bamum Supplement", unicode::Block::Bamum_Supplement },
        { "Basic Latin", unicode::Block::Basic_Latin },
        { "Bassa Vah", unicode::Block::Bassa_Vah },
        { "Batak", unicode::Block::Batak },
        { "Bengali", unicode::Block::Bengali },
        { "Bhaiksuki", unicode::Block::Bhaiksuki },
        { "Block Elements", unicode::Block::Block_Elements },
        { "Bopomofo", unicode::Block::Bopomofo },
        { "Bopomofo Extended", unicode::Block::Bopomofo_Extended },
        { "Box Drawing", unicode::Block::Box_Drawing },
        { "Brahmi", unicode::Block::Brahmi },
        { "Braille Patterns", unicode::Block::Braille_Patterns },
        { "Buginese", unicode::Block::Buginese },
        { "Buhid", unicode::Block::Buhid },
        { "Byzantine Musical Symbols", unicode::Block::Byzantine_Musical_Symbols },
        { "CJK Compatibility", unicode::Block::CJK_Compatibility },
        { "CJK Compatibility Forms", unicode::Block::CJK_Compatibility_Forms },
        { "CJK Compatibility Ideographs", unicode::Block::CJK_Compatibility_Ideographs },
        { "CJK Compatibility Ideographs Supplement", unicode::Block::CJK_Compatibility_Ideographs_Supplement },
        { "CJK Radicals Supplement", unicode::Block::CJK_Radicals_Supplement },
        { "CJK Strokes", unicode::Block::CJK_Strokes },
        { "CJK Symbols and Punctuation", unicode::Block::CJK_Symbols_and_Punctuation },
        { "CJK Unified Ideographs", unicode::Block::CJK_Unified_Ideographs },
        { "CJK Unified Ideographs Extension A", unicode::Block::CJK_Unified_Ideographs_Extension_A },
        { "CJK Unified Ideographs Extension B", unicode::Block::CJK_Unified_Ideographs_Extension_B },
        { "CJK Unified Ideographs Extension C", unicode::Block::CJK_Unified_Ideographs_Extension_C },
        { "CJK Unified Ideographs Extension D", unicode::Block::CJK_Unified_Ideographs_Extension_D },
        { "CJK Unified Ideographs Extension E", unicode::Block::CJK_Unified_Ideographs_Extension_E },
        { "CJK Unified Ideographs Extension F", unicode::Block::CJK_Unified_Ideographs_Extension_F },
        { "CJK Unified Ideographs Extension G", unicode::Block::CJK_Unified_Ideographs_Extension_G },
        { "CJK Unified Ideographs Extension H", unicode::Block::CJK_Unified_Ideographs_Extension_H },
        { "CJK Unified Ideographs Extension I", unicode::Block::CJK_Unified_Ideographs_Extension_I },
        { "Carian", unicode::Block::Carian },
        { "Caucasian Albanian", unicode::Block::Caucasian_Albanian },
        { "Chakma", unicode::Block::Chakma },
        { "Cham", unicode::Block::Cham },
        { "Cherokee", unicode::Block::Cherokee },
        { "Cherokee Supplement", unicode::Block::Cherokee_Supplement },
        { "Chess Symbols", unicode::Block::Chess_Symbols },
        { "Chorasmian", unicode::Block::Chorasmian },
        { "Combining Diacritical Marks", unicode::Block::Combining_Diacritical_Marks },
        { "Combining Diacritical Marks Extended", unicode::Block::Combining_Diacritical_Marks_Extended },
        { "Combining Diacritical Marks Supplement", unicode::Block::Combining_Diacritical_Marks_Supplement },
        { "Combining Diacritical Marks for Symbols", unicode::Block::Combining_Diacritical_Marks_for_Symbols },
        { "Combining Half Marks", unicode::Block::Combining_Half_Marks },
        { "Common Indic Number Forms", unicode::Block::Common_Indic_Number_Forms },
        { "Control Pictures", unicode::Block::Control_Pictures },
        { "Coptic", unicode::Block::Coptic },
        { "Coptic Epact Numbers", unicode::Block::Coptic_Epact_Numbers },
        { "Counting Rod Numerals", unicode::Block::Counting_Rod_Numerals },
        { "Cuneiform", unicode::Block::Cuneiform },
        { "Cuneiform Numbers and Punctuation", unicode::Block::Cuneiform_Numbers_and_Punctuation },
        { "Currency Symbols", unicode::Block::Currency_Symbols },
        { "Cypriot Syllabary", unicode::Block::Cypriot_Syllabary },
        { "Cypro-Minoan", unicode::Block::Cypro_Minoan },
        { "Cyrillic", unicode::Block::Cyrillic },
        { "Cyrillic Extended-A", unicode::Block::Cyrillic_Extended_A },
        { "Cyrillic Extended-B", unicode::Block::Cyrillic_Extended_B },
        { "Cyrillic Extended-C", unicode::Block::Cyrillic_Extended_C },
        { "Cyrillic Extended-D", unicode::Block::Cyrillic_Extended_D },
        { "Cyrillic Supplement", unicode::Block::Cyrillic_Supplement },
        { "Deseret", unicode::Block::Deseret },
        { "Devanagari", unicode::Block::Devanagari },
        { "Devanagari Extended", unicode::Block::Devanagari_Extended },
        { "Devanagari Extended-A", unicode::Block::Devanagari_Extended_A },
        { "Dingbats", unicode::Block::Dingbats },
        { "Dives Akuru", unicode::Block::Dives_Akuru },
        { "Dogra", unicode::Block::Dogra },
        { "Domino Tiles", unicode::Block::Domino_Tiles },
        { "Duployan", unicode::Block::Duployan },
        { "Early Dynastic Cuneiform", unicode::Block::Early_Dynastic_Cuneiform },
        { "Egyptian Hieroglyph Format Controls", unicode::Block::Egyptian_Hieroglyph_Format_Controls },
        { "Egyptian Hieroglyphs", unicode::Block::Egyptian_Hieroglyphs },
        { "Elbasan", unicode::Block::Elbasan },
        { "Elymaic", unicode::Block::Elymaic },
        { "Emoticons", unicode::Block::Emoticons },
        { "Enclosed Alphanumeric Supplement", unicode::Block::Enclosed_Alphanumeric_Supplement },
        { "Enclosed Alphanumerics", unicode::Block::Enclosed_Alphanumerics },
        { "Enclosed CJK Letters and Months", unicode::Block::Enclosed_CJK_Letters_and_Months },
        { "Enclosed Ideographic Supplement", unicode::Block::Enclosed_Ideographic_Supplement },
        { "Ethiopic", unicode::Block::Ethiopic },
        { "Ethiopic Extended", unicode::Block::Ethiopic_Extended },
        { "Ethiopic Extended-A", unicode::Block::Ethiopic_Extended_A },
        { "Ethiopic Extended-B", unicode::Block::Ethiopic_Extended_B },
        { "Ethiopic Supplement", unicode::Block::Ethiopic_Supplement },
        { "General Punctuation", unicode::Block::General_Punctuation },
        { "Geometric Shapes", unicode::Block::Geometric_Shapes },
        { "Geometric Shapes Extended", unicode::Block::Geometric_Shapes_Extended },
        { "Georgian", unicode::Block::Georgian },
        { "Georgian Extended", unicode::Block::Georgian_Extended },
        { "Georgian Supplement", unicode::Block::Georgian_Supplement },
        { "Glagolitic", unicode::Block::Glagolitic },
        { "Glagolitic Supplement", unicode::Block::Glagolitic_Supplement },
        { "Gothic", unicode::Block::Gothic },
        { "Grantha", unicode::Block::Grantha },
        { "Greek Extended", unicode::Block::Greek_Extended },
        { "Greek and Coptic", unicode::Block::Greek_and_Coptic },
        { "Gujarati", unicode::Block::Gujarati },
        { "Gunjala Gondi", unicode::Block::Gunjala_Gondi },
        { "Gurmukhi", unicode::Block::Gurmukhi },
        { "Halfwidth and Fullwidth Forms", unicode::Block::Halfwidth_and_Fullwidth_Forms },
        { "Hangul Compatibility Jamo", unicode::Block::Hangul_Compatibility_Jamo },
        { "Hangul Jamo", unicode::Block::Hangul_Jamo },
        { "Hangul Jamo Extended-A", unicode::Block::Hangul_Jamo_Extended_A },
        { "Hangul Jamo Extended-B", unicode::Block::Hangul_Jamo_Extended_B },
        { "Hangul Syllables", unicode::Block::Hangul_Syllables },
        { "Hanifi Rohingya", unicode::Block::Hanifi_Rohingya },
        { "Hanunoo", unicode::Block::Hanunoo },
        { "Hatran", unicode::Block::Hatran },
        { "Hebrew", unicode::Block::Hebrew },
        { "High Private Use Surrogates", unicode::Block::High_Private_Use_Surrogates },
        { "High Surrogates", unicode::Block::High_Surrogates },
        { "Hiragana", unicode::Block::Hiragana },
        { "IPA Extensions", unicode::Block::IPA_Extensions },
        { "Ideographic Description Characters", unicode::Block::Ideographic_Description_Characters },
        { "Ideographic Symbols and Punctuation", unicode::Block::Ideographic_Symbols_and_Punctuation },
        { "Imperial Aramaic", unicode::Block::Imperial_Aramaic },
        { "Indic Siyaq Numbers", unicode::Block::Indic_Siyaq_Numbers },
        { "Inscriptional Pahlavi", unicode::Block::Inscriptional_Pahlavi },
        { "Inscriptional Parthian", unicode::Block::Inscriptional_Parthian },
        { "Javanese", unicode::Block::Javanese },
        { "Kaithi", unicode::Block::Kaithi },
        { "Kaktovik Numerals", unicode::Block::Kaktovik_Numerals },
        { "Kana Extended-A", unicode::Block::Kana_Extended_A },
        { "Kana Extended-B", unicode::Block::Kana_Extended_B },
        { "Kana Supplement", unicode::Block::Kana_Supplement },
        { "Kanbun", unicode::Block::Kanbun },
        { "Kangxi Radicals", unicode::Block::Kangxi_Radicals },
        { "Kannada", unicode::Block::Kannada },
        { "Katakana", unicode::Block::Katakana },
        { "Katakana Phonetic Extensions", unicode::Block::Katakana_Phonetic_Extensions },
        { "Kawi", unicode::Block::Kawi },
        { "Kayah Li", unicode::Block::Kayah_Li },
        { "Kharoshthi", unicode::Block::Kharoshthi },
        { "Khitan Small Script", unicode::Block::Khitan_Small_Script },
        { "Khmer", unicode::Block::Khmer },
        { "Khmer Symbols", unicode::Block::Khmer_Symbols },
        { "Khojki", unicode::Block::Khojki },
        { "Khudawadi", unicode::Block::Khudawadi },
        { "Lao", unicode::Block::Lao },
        { "Latin Extended Additional", unicode::Block::Latin_Extended_Additional },
        { "Latin Extended-A", unicode::Block::Latin_Extended_A },
        { "Latin Extended-B", unicode::Block::Latin_Extended_B },
        { "Latin Extended-C", unicode::Block::Latin_Extended_C },
        { "Latin Extended-D", unicode::Block::Latin_Extended_D },
        { "Latin Extended-E", unicode::Block::Latin_Extended_E },
        { "Latin Extended-F", unicode::Block::Latin_Extended_F },
        { "Latin Extended-G", unicode::Block::Latin_Extended_G },
        { "Latin-1 Supplement", unicode::Block::Latin_1_Supplement },
        { "Lepcha", unicode::Block::Lepcha },
        { "Letterlike Symbols", unicode::Block::Letterlike_Symbols },
        { "Limbu", unicode::Block::Limbu },
        { "Linear A", unicode::Block::Linear_A },
        { "Linear B Ideograms", unicode::Block::Linear_B_Ideograms },
        { "Linear B Syllabary", unicode::Block::Linear_B_Syllabary },
        { "Lisu", unicode::Block::Lisu },
        { "Lisu Supplement", unicode::Block::Lisu_Supplement },
        { "Low Surrogates", unicode::Block::Low_Surrogates },
        { "Lycian", unicode::Block::Lycian },
        { "Lydian", unicode::Block::Lydian },
        { "Mahajani", unicode::Block::Mahajani },
        { "Mahjong Tiles", unicode::Block::Mahjong_Tiles },
        { "Makasar", unicode::Block::Makasar },
        { "Malayalam", unicode::Block::Malayalam },
        { "Mandaic", unicode::Block::Mandaic },
        { "Manichaean", unicode::Block::Manichaean },
        { "Marchen", unicode::Block::Marchen },
        { "Masaram Gondi", unicode::Block::Masaram_Gondi },
        { "Mathematical Alphanumeric Symbols", unicode::Block::Mathematical_Alphanumeric_Symbols },
        { "Mathematical Operators", unicode::Block::Mathematical_Operators },
        { "Mayan Numerals", unicode::Block::Mayan_Numerals },
        { "Medefaidrin", unicode::Block::Medefaidrin },
        { "Meetei Mayek", unicode::Block::Meetei_Mayek },
        { "Meetei Mayek Extensions", unicode::Block::Meetei_Mayek_Extensions },
        { "Mende Kikakui", unicode::Block::Mende_Kikakui },
        { "Meroitic Cursive", unicode::Block::Meroitic_Cursive },
        { "Meroitic Hieroglyphs", unicode::Block::Meroitic_Hieroglyphs },
        { "Miao", unicode::Block::Miao },
        { "Miscellaneous Mathematical Symbols-A", unicode::Block::Miscellaneous_Mathematical_Symbols_A },
        { "Miscellaneous Mathematical Symbols-B", unicode::Block::Miscellaneous_Mathematical_Symbols_B },
        { "Miscellaneous Symbols", unicode::Block::Miscellaneous_Symbols },
        { "Miscellaneous Symbols and Arrows", unicode::Block::Miscellaneous_Symbols_and_Arrows },
        { "Miscellaneous Symbols and Pictographs", unicode::Block::Miscellaneous_Symbols_and_Pictographs },
        { "Miscellaneous Technical", unicode::Block::Miscellaneous_Technical },
        { "Modi", unicode::Block::Modi },
        { "Modifier Tone Letters", unicode::Block::Modifier_Tone_Letters },
        { "Mongolian", unicode::Block::Mongolian },
        { "Mongolian Supplement", unicode::Block::Mongolian_Supplement },
        { "Mro", unicode::Block::Mro },
        { "Multani", unicode::Block::Multani },
        { "Musical Symbols", unicode::Block::Musical_Symbols },
        { "Myanmar", unicode::Block::Myanmar },
        { "Myanmar Extended-A", unicode::Block::Myanmar_Extended_A },
        { "Myanmar Extended-B", unicode::Block::Myanmar_Extended_B },
        { "NKo", unicode::Block::NKo },
        { "Nabataean", unicode::Block::Nabataean },
        { "Nag Mundari", unicode::Block::Nag_Mundari },
        { "Nandinagari", unicode::Block::Nandinagari },
        { "New Tai Lue", unicode::Block::New_Tai_Lue },
        { "Newa", unicode::Block::Newa },
        { "Number Forms", unicode::Block::Number_Forms },
        { "Nushu", unicode::Block::Nushu },
        { "Nyiakeng Puachue Hmong", unicode::Block::Nyiakeng_Puachue_Hmong },
        { "Ogham", unicode::Block::Ogham },
        { "Ol Chiki", unicode::Block::Ol_Chiki },
        { "Old Hungarian", unicode::Block::Old_Hungarian },
        { "Old Italic", unicode::Block::Old_Italic },
        { "Old North Arabian", unicode::Block::Old_North_Arabian },
        { "Old Permic", unicode::Block::Old_Permic },
        { "Old Persian", unicode::Block::Old_Persian },
        { "Old Sogdian", unicode::Block::Old_Sogdian },
        { "Old South Arabian", unicode::Block::Old_South_Arabian },
        { "Old Turkic", unicode::Block::Old_Turkic },
        { "Old Uyghur", unicode::Block::Old_Uyghur },
        { "Optical Character Recognition", unicode::Block::Optical_Character_Recognition },
        { "Oriya", unicode::Block::Oriya },
        { "Ornamental Dingbats", unicode::Block::Ornamental_Dingbats },
        { "Osage", unicode::Block::Osage },
        { "Osmanya", unicode::Block::Osmanya },
        { "Ottoman Siyaq Numbers", unicode::Block::Ottoman_Siyaq_Numbers },
        { "Pahawh Hmong", unicode::Block::Pahawh_Hmong },
        { "Palmyrene", unicode::Block::Palmyrene },
        { "Pau Cin Hau", unicode::Block::Pau_Cin_Hau },
        { "Phags-pa", unicode::Block::Phags_pa },
        { "Phaistos Disc", unicode::Block::Phaistos_Disc },
        { "Phoenician", unicode::Block::Phoenician },
        { "Phonetic Extensions", unicode::Block::Phonetic_Extensions },
        { "Phonetic Extensions Supplement", unicode::Block::Phonetic_Extensions_Supplement },
        { "Playing Cards", unicode::Block::Playing_Cards },
        { "Private Use Area", unicode::Block::Private_Use_Area },
        { "Psalter Pahlavi", unicode::Block::Psalter_Pahlavi },
        { "Rejang", unicode::Block::Rejang },
        { "Rumi Numeral Symbols", unicode::Block::Rumi_Numeral_Symbols },
        { "Runic", unicode::Block::Runic },
        { "Samaritan", unicode::Block::Samaritan },
        { "Saurashtra", unicode::Block::Saurashtra },
        { "Sharada", unicode::Block::Sharada },
        { "Shavian", unicode::Block::Shavian },
        { "Shorthand Format Controls", unicode::Block::Shorthand_Format_Controls },
        { "Siddham", unicode::Block::Siddham },
        { "Sinhala", unicode::Block::Sinhala },
        { "Sinhala Archaic Numbers", unicode::Block::Sinhala_Archaic_Numbers },
        { "Small Form Variants", unicode::Block::Small_Form_Variants },
        { "Small Kana Extension", unicode::Block::Small_Kana_Extension },
        { "Sogdian", unicode::Block::Sogdian },
        { "Sora Sompeng", unicode::Block::Sora_Sompeng },
        { "Soyombo", unicode::Block::Soyombo },
        { "Spacing Modifier Letters", unicode::Block::Spacing_Modifier_Letters },
        { "Specials", unicode::Block::Specials },
        { "Sundanese", unicode::Block::Sundanese },
        { "Sundanese Supplement", unicode::Block::Sundanese_Supplement },
        { "Superscripts and Subscripts", unicode::Block::Superscripts_and_Subscripts },
        { "Supplemental Arrows-A", unicode::Block::Supplemental_Arrows_A },
        { "Supplemental Arrows-B", unicode::Block::Supplemental_Arrows_B },
        { "Supplemental Arrows-C", unicode::Block::Supplemental_Arrows_C },
        { "Supplemental Mathematical Operators", unicode::Block::Supplemental_Mathematical_Operators },
        { "Supplemental Punctuation", unicode::Block::Supplemental_Punctuation },
        { "Supplemental Symbols and Pictographs", unicode::Block::Supplemental_Symbols_and_Pictographs },
        { "Supplementary Private Use Area-A", unicode::Block::Supplementary_Private_Use_Area_A },
        { "Supplementary Private Use Area-B", unicode::Block::Supplementary_Private_Use_Area_B },
        { "Sutton SignWriting", unicode::Block::Sutton_SignWriting },
        { "Syloti Nagri", unicode::Block::Syloti_Nagri },
        { "Symbols and Pictographs Extended-A", unicode::Block::Symbols_and_Pictographs_Extended_A },
        { "Symbols for Legacy Computing", unicode::Block::Symbols_for_Legacy_Computing },
        { "Syriac", unicode::Block::Syriac },
        { "Syriac Supplement", unicode::Block::Syriac_Supplement },
        { "Tagalog", unicode::Block::Tagalog },
        { "Tagbanwa", unicode::Block::Tagbanwa },
        { "Tags", unicode::Block::Tags },
        { "Tai Le", unicode::Block::Tai_Le },
        { "Tai Tham", unicode::Block::Tai_Tham },
        { "Tai Viet", unicode::Block::Tai_Viet },
        { "Tai Xuan Jing Symbols", unicode::Block::Tai_Xuan_Jing_Symbols },
        { "Takri", unicode::Block::Takri },
        { "Tamil", unicode::Block::Tamil },
        { "Tamil Supplement", unicode::Block::Tamil_Supplement },
        { "Tangsa", unicode::Block::Tangsa },
        { "Tangut", unicode::Block::Tangut },
        { "Tangut Components", unicode::Block::Tangut_Components },
        { "Tangut Supplement", unicode::Block::Tangut_Supplement },
        { "Telugu", unicode::Block::Telugu },
        { "Thaana", unicode::Block::Thaana },
        { "Thai", unicode::Block::Thai },
        { "Tibetan", unicode::Block::Tibetan },
        { "Tifinagh", unicode::Block::Tifinagh },
        { "Tirhuta", unicode::Block::Tirhuta },
        { "Toto", unicode::Block::Toto },
        { "Transport and Map Symbols", unicode::Block::Transport_and_Map_Symbols },
        { "Ugaritic", unicode::Block::Ugaritic },
        { "Unified Canadian Aboriginal Syllabics", unicode::Block::Unified_Canadian_Aboriginal_Syllabics },
        { "Unified Canadian Aboriginal Syllabics Extended", unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended },
        { "Unified Canadian Aboriginal Syllabics Extended-A", unicode::Block::Unified_Canadian_Aboriginal_Syllabics_Extended_A },
        { "Vai", unicode::Block::Vai },
        { "Variation Selectors", unicode::Block::Variation_Selectors },
        { "Variation Selectors Supplement", unicode::Block::Variation_Selectors_Supplement },
        { "Vedic Extensions", unicode::Block::Vedic_Extensions },
        { "Vertical Forms", unicode::Block::Vertical_Forms },
        { "Vithkuqi", unicode::Block::Vithkuqi },
        { "Wancho", unicode::Block::Wancho },
        { "Warang Citi", unicode::Block::Warang_Citi },
        { "Yezidi", unicode::Block::Yezidi },
        { "Yi Radicals", unicode::Block::Yi_Radicals },
        { "Yi Syllables", unicode::Block::Yi_Syllables },
        { "Yijing Hexagram Symbols", unicode::Block::Yijing_Hexagram_Symbols },
        { "Zanabazar Square", unicode::Block::Zanabazar_Square },
        { "Znamenny Musical Notation", unicode::Block::Znamenny_Musical_Notation },
    };
    return m;
}
inline Map<unicode::Core_Property> const& core()
{
    static Map<unicode::Core_Property> const m = {
        { "Alphabetic", unicode::Core_Property::Alphabetic },
        { "Case_Ignorable", unicode::Core_Property::Case_Ignorable },
        { "Cased", unicode::Core_Property::Cased },
        { "Changes_When_Casefolded", unicode::Core_Property::Changes_When_Casefolded },
        { "Changes_When_Casemapped", unicode::Core_Property::Changes_When_Casemapped },
        { "Changes_When_Lowercased", unicode::Core_Property::Changes_When_Lowercased },
        { "Changes_When_Titlecased", unicode::Core_Property::Changes_When_Titlecased },
        { "Changes_When_Uppercased", unicode::Core_Property::Changes_When_Uppercased },
        { "Default_Ignorable_Code_Point", unicode::Core_Property::Default_Ignorable_Code_Point },
        { "Grapheme_Base", unicode::Core_Property::Grapheme_Base },
        { "Grapheme_Extend", unicode::Core_Property::Grapheme_Extend },
        { "Grapheme_Link", unicode::Core_Property::Grapheme_Link },
        { "ID_Continue", unicode::Core_Property::ID_Continue },
        { "ID_Start", unicode::Core_Property::ID_Start },
        { "Lowercase", unicode::Core_Property::Lowercase },
        { "Math", unicode::Core_Property::Math },
        { "Uppercase", unicode::Core_Property::Uppercase },
        { "XID_Continue", unicode::Core_Property::XID_Continue },
        { "XID_Start", unicode::Core_Property::XID_Start },
    };
    return m;
}
inline Map<unicode::Plane> const& plane()
{
    static Map<unicode::Plane> const m = {
        { "Basic_Multilingual_Plane", unicode::Plane::Basic_Multilingual_Plane },
        { "Supplementary_Ideographic_Plane", unicode::Plane::Supplementary_Ideographic_Plane },
        { "Supplementary_Multilingual_Plane", unicode::Plane::Supplementary_Multilingual_Plane },
        { "Supplementary_Private_Use_Area_Plane", unicode::Plane::Supplementary_Private_Use_Area_Plane },
        { "Supplementary_Special_purpose_Plane", unicode::Plane::Supplementary_Special_purpose_Plane },
        { "Tertiary_Ideographic_Plane", unicode::Plane::Tertiary_Ideographic_Plane },
        { "Unassigned", unicode::Plane::Unassigned },
    };
    return m;
}
} // namespace enumnames
