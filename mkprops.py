#!/usr/bin/env python3
# Writes properties.jsonl. Kept so that the statements can be edited in one readable place.
import json
S="src/libunicode/"
def P(id,title,statement,over,qtext,why,files,state,mech,obs):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=obs,hook_needed=None))
L=[]
L.append(P("C01","Bulk UTF-8 decoding is exact for every well-formed text",
 "Converting any well-formed UTF-8 text to UTF-32 or UTF-16 yields exactly the characters that were encoded, in order. The result does not depend on the vector width the machine supports, on where ASCII and multi-byte characters fall relative to vector blocks, or on the alignment and length of the input.",
 ["inputs","configurations"],"every code point; every placement of ASCII/multi-byte characters around vector-block edges; every supported vector width and the portable fallback",
 "Tests try a few strings at one vector width (whatever the test machine has); a wrong lane, block edge or width-specific store only shows at particular lengths, offsets and CPU models.",
 ["convert.cpp","convert256.cpp","convert512.cpp","convert_simd_impl.h","convert.h","intrinsics.h","utf8.h"],
 [("decoder<char>","pending multi-byte character","convert.h")],
 [("block-wise ASCII fast path, scalar tail","convert_simd_impl.h"),("width dispatch","convert.cpp")],
 ["return value of convert_to / from_utf8(string)"]))
L.append(P("C02","Bulk decoding of arbitrary bytes is contained and skips only malformed bytes",
 "For arbitrary bytes, bulk decoding terminates, never reads outside the input or writes more units than it was given bytes, and gives the same answer at every vector width. Malformed bytes are ignored without swallowing, altering or inventing any complete character around them: output equals the complete multi-byte or ASCII characters of the input in order, and a truncated character at the end yields nothing.",
 ["inputs","configurations"],"all byte strings over the byte classes of UTF-8 up to a length bound, at every position around vector-block edges and at the end of an accessible memory page",
 "Out-of-bounds reads and swallowed neighbours need particular truncations at particular offsets next to unmapped memory; tests contain a single stray byte.",
 ["convert_simd_impl.h","convert.h","convert.cpp","utf8.h"],
 [("decoder<char>","pending multi-byte character and how many bytes it still needs","convert.h")],
 [("scalar decoding of the tail","convert_simd_impl.h"),("bytewise decoder","convert.h")],
 ["return value of convert_to / from_utf8(string)","page faults next to the buffers"]))
L.append(P("C03","Conversions between UTF-8, UTF-16, UTF-32 and wide strings are lossless",
 "Every Unicode scalar value, alone and next to any other, is encoded to the standard UTF-8/UTF-16 form and decodes back to itself through every conversion pair and every conversion interface. Converting ill-formed or truncated input never reads past its end, always terminates and keeps the well-formed part before the defect; ill-formed UTF-8 and UTF-16 yield no character that is not in the input.",
 ["inputs"],"all scalar values; all sequences of encoding-length classes up to a bound; all truncations of them",
 "The conversion pairs times length classes times truncation points are far more than the handful of strings in the tests, and truncation is not tested at all.",
 ["convert.h","utf8.h"],[],[("encoder<T>/decoder<T>","convert.h"),("to_utf8","utf8.h")],
 ["convert_to<T>(view), convert_to<T>(view, iterator), convert_to<T>(char), to_utf8, encoder/decoder objects"]))
L.append(P("C04","Byte-at-a-time UTF-8 decoding never loses or invents a character",
 "Feeding bytes one at a time to the incremental decoder delivers each well-formed character exactly once, exactly when its last byte arrives, whatever came before it. A broken character is reported as invalid (never as a character), and decoding resynchronises so that the next complete character that starts with a lead byte, or any ASCII byte outside a pending character, is delivered intact.",
 ["inputs","histories"],"all byte sequences over the UTF-8 byte classes up to a bound, from every reachable decoder state",
 "The decoder is a state machine: which bytes break which pending prefix is a product space the tests sample at three points.",
 ["utf8.cpp","utf8.h","convert.h","capi.cpp"],[("utf8_decoder_state","pending character bits, expected and current length","utf8.h")],
 [("from_utf8(state, byte)","utf8.cpp")],["sequence of Success/Incomplete/Invalid results"]))
L.append(P("S01","The fast ASCII scan finds exactly the first non-text byte",
 "The fast scan over plain ASCII returns the number of leading bytes that are neither control characters nor part of a multi-byte character, never more than the requested maximum and never reading outside the text. All vector widths and the portable fallback give the same number for every text, length, maximum and alignment.",
 ["inputs","configurations"],"every byte value at every position in texts up to several vector blocks long, every limit, every vector width",
 "An off-by-one at a block edge or a wrong comparison for one byte value appears only for one position/value/width combination; tests run one width with printable text.",
 ["scan_simd_impl.h","scan.cpp","scan256.cpp","scan512.cpp","intrinsics.h"],[],
 [("vector compare and first-set-bit","scan_simd_impl.h"),("less/equal/and masks per width","intrinsics.h")],
 ["return value of the ASCII scan; scan_text on ASCII"]))
L.append(P("S02","Text scanning accounts for every byte and column across calls",
 "However a byte stream is cut into calls and whatever column limit each call has, the scanner never exceeds the limit, never hands out a byte of a valid character twice or skips one, and always reports start <= end <= next. The columns summed over all calls equal the columns of the same stream scanned in one call, unless a variation selector narrows a cluster whose columns were already handed out.",
 ["inputs","histories"],"all short streams of character classes (including malformed bytes and controls), all ways to cut them into calls, all limits per call",
 "The defects live in the hand-over between calls: a split inside a character, a cluster put back at a limit, a mark arriving alone in the next call. Tests try single cuts of single strings.",
 ["scan.cpp","scan.h"],
 [("scan_state::utf8","partially received character","scan.h"),("scan_state::clusterWidth / reportedClusterWidth","columns of the open cluster already handed out","scan.h"),("scan_state::graphemeState / lastCodepointHint","open cluster for segmentation","scan.h"),("scan_state::next","resume position","scan.h")],
 [("limit test and put-back of a cluster","scan.cpp"),("ASCII/complex hand-over","scan.cpp")],
 ["scan_result{count,start,end} and scan_state::next"]))
L.append(P("S03","Text scanning reports whole clusters, their widths, and stops at controls",
 "The events delivered while scanning reproduce the scanned text in order, with every reported cluster being a grapheme cluster (or the part of it in this call) with the width the cluster-width function gives it, every malformed sequence reported once, and their columns adding up to the returned count. The scan stops exactly at the first C0 or C1 control character at a character boundary and never inside a multi-byte character, and a control always closes the open cluster.",
 ["inputs","histories"],"all short streams of character classes including malformed bytes and controls, cut into calls in all ways",
 "Two scanners alternate and three layers must agree (segmenter, width accumulator, receiver); tests check a few hand-picked strings.",
 ["scan.cpp","scan.h","width.cpp","grapheme_segmenter.cpp"],
 [("clusterStart / state.reportedClusterWidth","open cluster not yet delivered","scan.cpp")],
 [("flushOpenCluster, control stop","scan.cpp")],["grapheme_cluster_receiver callbacks, scan_result, state.next"]))
L.append(P("G01","Grapheme cluster boundaries follow UAX #29 for every text",
 "For every sequence of code points, the segmenter breaks exactly where the extended grapheme cluster rules of UAX #29 (including Indic conjuncts, emoji ZWJ sequences and regional-indicator pairs) break. This holds both when each cluster is started afresh and when the documented stateful interface is driven across breaks without restarting.",
 ["inputs","histories"],"sequences of any length over all code points (product of the segmenter with the rule automaton)",
 "The rules need unbounded left context (flag parity, ZWJ chains, conjunct chains); the standard's sample file has ~1200 short cases.",
 ["grapheme_segmenter.cpp","grapheme_segmenter.h"],
 [("grapheme_segmenter_state","previous code point, RI parity, conjunct and pictographic context","grapheme_segmenter.h")],
 [("grapheme_process_init / grapheme_process_breakable","grapheme_segmenter.cpp")],
 ["boolean results of the stateful interface; clusters from the iterators"]))
L.append(P("G02","All grapheme interfaces tile the text and agree",
 "Iterating clusters over UTF-32 text, over UTF-8 text and counting them through the C interface all yield the same clusters; concatenated they are exactly the input, no cluster is empty, and iteration terminates. Malformed UTF-8 contributes replacement characters and never makes surrounding characters disappear.",
 ["inputs"],"all sequences of cluster-break classes up to a length bound, well-formed and malformed encodings of them",
 "Iterator bookkeeping (look-ahead, end detection, last cluster) fails at particular shapes and ends of text.",
 ["grapheme_segmenter.h","utf8_grapheme_segmenter.h","capi.cpp"],
 [("left_/right_/state_","current cluster range","grapheme_segmenter.h"),("look-ahead code point","next cluster's first character already decoded","utf8_grapheme_segmenter.h")],
 [("operator++","grapheme_segmenter.h"),("operator++","utf8_grapheme_segmenter.h"),("u32_gc_count","capi.cpp")],
 ["clusters yielded; counts"]))
L.append(P("W01","Word boundaries follow UAX #29 for every text",
 "For every sequence of code points, word segmentation breaks exactly where the UAX #29 word boundary rules break, and the words concatenate to the input. The word iterator and the step-wise interface with look-ahead agree.",
 ["inputs"],"all sequences over the word-break classes up to a length bound, every code point standing for its class",
 "Rules look two characters behind and ahead through arbitrarily many ignorable characters; only enumeration covers the combinations.",
 ["word_segmenter.cpp","word_segmenter.h"],
 [("word_segmenter_state","previous significant classes, RI parity, transparent characters seen","word_segmenter.h")],
 [("word_process_init / word_process_breakable","word_segmenter.cpp")],["words yielded, break decisions"]))
L.append(P("E01","Emoji presentation runs partition text by the emoji grammar",
 "For every text, emoji segmentation yields maximal runs that concatenate to the input, alternate between text and emoji presentation, and classify every character exactly as the emoji sequence grammar (flags, keycaps, ZWJ, tag, modifier and variation-selector sequences) does with longest match.",
 ["inputs"],"all sequences over the emoji segmentation categories up to a length bound",
 "The grammar is a generated scanner with backtracking; the run boundaries at truncated or overlapping sequences are a combinatorial space.",
 ["emoji_segmenter.cpp","emoji_segmenter.h","emoji_presentation_scanner.c"],
 [("emoji_segmenter cursors","start, cursor and end of the current run","emoji_segmenter.h")],
 [("scan_emoji_presentation","emoji_presentation_scanner.c"),("consume_once / consume","emoji_segmenter.cpp")],["runs and their presentation style"]))
L.append(P("R01","Script runs partition text and name a script every character can have",
 "For every text, script segmentation yields consecutive non-empty runs that cover the input exactly once. Within a run every character can have the reported script (its own script, its script extensions, or it is only common/inherited), and a run ends only before a character that shares no possible script with what the run could still be.",
 ["inputs"],"all sequences up to a length bound over representatives of every kind of script-extension set",
 "Script sets are intersected incrementally, so wrong results depend on the history of earlier characters; tests hold a few sentences.",
 ["script_segmenter.cpp","script_segmenter.h"],
 [("_currentScriptSet","scripts still possible for the open run","script_segmenter.h")],
 [("merge_sets, get_scripts","script_segmenter.cpp")],["sequence of (end, script) results"]))
L.append(P("R02","Combined runs are the common refinement of script and presentation runs",
 "The run segmenter yields consecutive non-empty runs covering the text whose boundaries are exactly the union of the script boundaries and the emoji/text presentation boundaries, each labelled with the script and presentation of the runs it came from.",
 ["inputs"],"all sequences over combined script x emoji classes up to a length bound",
 "Two segmenters advance at different speeds; a boundary present in only one of them at a particular offset is what tests miss.",
 ["run_segmenter.h","script_segmenter.cpp","emoji_segmenter.cpp"],
 [("per-segmenter last position","how far each sub-segmenter has advanced","run_segmenter.h")],
 [("consume","run_segmenter.h")],["sequence of ranges and their properties"]))
L.append(P("N01","Normalization produces the four Unicode normal forms",
 "For every text, normalizing to NFC, NFD, NFKC or NFKD yields exactly the form defined by UAX #15 for the built-in Unicode version. UTF-8 and UTF-32 interfaces agree.",
 ["inputs"],"every code point; every pair that could compose or reorder; all sequences over a composition-relevant alphabet up to a length bound",
 "Canonical ordering and composition depend on combinations of starters and marks (blocking, Hangul, exclusions); tests sample a few strings.",
 ["normalization.cpp","normalization.h","tablegen/case_norm_generator.cpp","tablegen/ucd_parser.cpp"],
 [("decomposed buffer","text between decomposition, reordering and composition","normalization.cpp")],
 [("decompose_recursive, canonical_order, compose, try_compose","normalization.cpp")],["result of normalize/to_nfc/..."]))
L.append(P("N02","Normalization checks and equivalences agree with normalization",
 "A text is reported normalized exactly when normalizing leaves it unchanged; a definite quick-check answer is never wrong and is the one the standard gives; normalizing twice changes nothing. Two texts are reported canonically (compatibility) equivalent exactly when their canonical (compatibility) decompositions are equal, and the single-character queries match the Unicode data.",
 ["inputs"],"every code point, all sequences over a composition-relevant alphabet up to a length bound, all pairs of short sequences",
 "These are relations between functions over all texts; a stale table entry or a missed ordering check shows on specific sequences only.",
 ["normalization.cpp","normalization.h"],[],
 [("quick_check, is_normalized, is_canonically_equivalent, nfc_quick_check...","normalization.cpp")],["results of these functions"]))
L.append(P("N03","Streaming normalization equals normalizing the whole text",
 "Feeding a text piece by piece to the streaming normalizers and flushing gives exactly the normalization of the whole text, for every way of cutting the text (for UTF-8: at any byte) and every form. After flush or reset the object behaves like a new one.",
 ["inputs","histories"],"all sequences over a composition-relevant alphabet up to a bound, all cut positions, all forms, reuse after flush/reset",
 "Whether a segment boundary is safe depends on what the next character decomposes to; only certain sequences expose an unsafe boundary.",
 ["normalization.cpp","normalization.h"],
 [("_pending/_output/_utf8State","text not yet emitted, last emitted text, partial character","normalization.h")],
 [("is_boundary, feed, flush","normalization.cpp")],["concatenation of feed()/flush() results"]))
L.append(P("M01","Per-character case mappings and case properties match Unicode",
 "For every code point the simple and full upper-, lower-, titlecase and case-folding mappings are those of the built-in Unicode data, and values beyond Unicode map to themselves. The case predicates are consistent with those mappings and the derived properties they are documented as.",
 ["inputs"],"all 1,114,112 code points and values above",
 "Tables with ~1,500 entries and multi-character exceptions; tests check a dozen.",
 ["case_mapping.cpp","case_mapping.h","tablegen/case_norm_generator.cpp","tablegen/ucd_parser.cpp"],[],
 [("simple_*/full_* lookup","case_mapping.cpp")],["simple_uppercase, to_uppercase(cp), is_cased..."]))
L.append(P("M02","String case conversion maps every character and nothing else",
 "Converting a text to upper case, lower case or folded case is the concatenation of the full mappings of its characters; title case maps the first cased character of each word to title case and the remaining ones to lower case. UTF-8 and UTF-32 interfaces agree, and case-insensitive comparison holds exactly when the folded texts are equal.",
 ["inputs"],"every code point in context; all sequences over a case-relevant alphabet up to a length bound",
 "Word state (first letter seen, case-ignorable characters in between) depends on history.",
 ["case_mapping.cpp","case_mapping.h"],[],[("to_uppercase, to_lowercase, to_titlecase, fold_case, equal_case_insensitive","case_mapping.cpp")],["resulting strings"]))
L.append(P("D01","The code point property record matches the Unicode data for every code point",
 "For every code point, the property record (script, grapheme cluster break, word break, Indic conjunct break, East Asian width, general category, age, emoji flags, variation base, virama, emoji segmentation category) equals what the Unicode Character Database says, with the documented defaults for unlisted ones (East Asian width: Narrow). Looking up a value beyond Unicode is safe and yields the fallback record, that of U+0000.",
 ["inputs"],"all 1,114,112 code points and out-of-range values",
 "The tables are generated and compressed; a single wrong range, default or block index affects code points no test looks at.",
 ["tablegen/multistage_generator.cpp","tablegen/ucd_parser.cpp","tablegen/enum_generator.cpp","multistage_table_view.h","multistage_table_generator.h","codepoint_properties.h","codepoint_properties.cpp"],
 [("stage1/stage2/properties","compressed property table","codepoint_properties.cpp")],
 [("generateMultistageFiles","tablegen/multistage_generator.cpp"),("get","multistage_table_view.h")],["codepoint_properties::get(cp)"]))
L.append(P("D02","The standalone property queries match the Unicode data",
 "For every code point, the standalone query functions (plane, block, general category and every category predicate, script, script extensions, grapheme break, East Asian width, emoji predicates, every derived core property, mirroring, mirrored glyph) answer as the Unicode Character Database does, and agree with the compressed property record; code points a data file does not list give the fallback value (Undefined, Unspecified, Unknown, Unassigned). Enumerators print as their names in the data, in every state of the stream and with every format specification. Age strings parse to exactly the listed versions.",
 ["inputs"],"all 1,114,112 code points, values above, and every property value",
 "Binary searches over hundreds of range tables: an off-by-one at one range edge is invisible to sampled tests.",
 ["tablegen/ucd_api_generator.cpp","tablegen/ucd_parser.cpp","tablegen/enum_generator.cpp","ucd_private.h"],[],
 [("search/contains over range tables","ucd_private.h"),("generateUcdApiFiles","tablegen/ucd_api_generator.cpp")],["return values of the functions in ucd.h and ostream names"]))
L.append(P("D03","Character names match the Unicode data for every code point",
 "For every code point the name lookup returns the name listed in the Unicode Character Database, the listed pattern for ranges that are named by one, and an empty name for code points without one, including values beyond Unicode.",
 ["inputs"],"all 1,114,112 code points and out-of-range values",
 "Names are stored in a compressed block table; collisions or truncated block numbers corrupt whole regions that no test reads.",
 ["codepoint_properties.h","tablegen/multistage_generator.cpp","multistage_table_generator.h"],
 [("names_stage1..3","compressed name table","codepoint_properties.cpp")],[("names table generation","tablegen/multistage_generator.cpp")],["codepoint_properties::name(cp)"]))
L.append(P("D04","The table compressor reproduces every input table",
 "For every input table, looking an index up in the generated compressed table gives the original element, whatever blocks repeat and whatever values they hold; indices beyond the table give the element at the fallback index. Equal blocks and equal values are stored once. A table that needs more block or value numbers than its index types hold is refused, never stored wrongly.",
 ["inputs"],"all small tables over a small value alphabet (all block patterns), several element and block sizes",
 "Block deduplication by hash and index narrowing go wrong only for particular repetitions; the library's own tests never build another table.",
 ["multistage_table_generator.h","multistage_table_view.h"],[("_blockHashMap/_stage3Map","blocks and values already stored","multistage_table_generator.h")],
 [("find_same_block, get_or_create_stage3_index","multistage_table_generator.h")],["multistage_table::get, view get, table sizes"]))
L.append(P("X01","Cluster width follows the documented rules for every cluster",
 "For every sequence of code points, the cluster width (incremental and one-shot) equals the documented rules: variation selectors re-present only defined bases, spacing marks and conjuncts widen to two, modifiers and second flag halves add nothing, ZWJ consumes the next code point. Text width is the sum over its grapheme clusters; resetting forgets everything.",
 ["inputs","histories"],"product of the accumulator with an independent reference over all width-relevant classes, all sequences to a depth, any code point last",
 "The accumulator has seven interacting fields; combinations of selectors, ZWJ and viramas are far beyond sampled clusters.",
 ["width.cpp","width.h"],[("grapheme_cluster_width_accumulator","last measured base, open flags, totals","width.h")],
 [("push / width","width.cpp")],["width() after each push, grapheme_cluster_width"]))
L.append(P("X02","Every code point has the documented column width",
 "For every code point the width is 0, 1 or 2 exactly as documented: zero for controls, most format characters, non-spacing, enclosing and spacing marks, separators, surrogates and conjoining vowel/trailing jamo; two for emoji presentation and wide/fullwidth characters; one otherwise, including rendered format characters and the soft hyphen.",
 ["inputs"],"all 1,114,112 code points and values above",
 "Width is derived from several properties with overrides whose order matters.",
 ["tablegen/multistage_generator.cpp","width.cpp"],[],[("computeCharWidth and overrides","tablegen/multistage_generator.cpp")],["width(cp), codepoint_properties::get(cp).char_width"]))
L.append(P("A01","The C interface agrees with the C++ library and respects its buffers",
 "For every input, the C functions return what the corresponding C++ operations return (cluster counts, widths, conversions, streaming decoder). They never write outside the given output size, accept an output buffer that exactly fits, and tolerate empty and unterminated input.",
 ["inputs","histories"],"all sequences over character classes up to a bound, every output buffer size from 0 to beyond the needed one, interleavings of several stream handles",
 "Tests use one comfortable buffer size and one string.",
 ["capi.cpp","capi.h"],[("u8u32_stream_state","decoder behind the opaque handle","capi.cpp")],
 [("u32u8_convert, u32_gc_width, u8_gc_width, u8u32_stream_convert_run","capi.cpp")],["return values, bytes written, guard bytes"]))
L.append(P("Q01","Vector width selection never exceeds what CPU and OS support",
 "For every combination of CPU feature bits and operating-system state, the selected vector width is the widest whose required instruction sets are all reported and whose registers the operating system saves; otherwise it falls back to the next narrower one. Feature words the CPU does not report are not consulted.",
 ["configurations"],"every combination of the relevant feature bits, maximum leaf and saved-state mask",
 "A test machine is one CPU; the fallback paths never execute on it.",
 ["simd_detector.cpp","simd_detector.h"],[],[("detect_os_avx, detect_os_avx512, max_simd_size","simd_detector.cpp")],["return value of max_simd_size under simulated cpuid/xgetbv"]))
L.append(P("Q02","No call executes vector instructions wider than the selected width",
 "Whatever is called with whatever text, in every build of the library, no AVX instruction is executed where 128 bits are selected and no AVX-512 instruction where 256 bits are: on machines and operating systems without them every call works. Code compiled for wide vectors runs only where that width was selected.",
 ["inputs","configurations"],"all uses on all texts up to the bound x all selectable widths x builds, with a breakpoint on every instruction that needs a wider unit",
 "Test machines have all the vector units: an instruction that is missing elsewhere is executed there without notice.",
 ["scan.cpp","convert.cpp","scan256.cpp","scan512.cpp","convert256.cpp","convert512.cpp","scan_simd_impl.h","convert_simd_impl.h","intrinsics.h"],
 [("function-local statics","selected width, kept from the first use","scan.cpp")],[("detail::scan_for_text_ascii","scan.cpp"),("convert_utf8_to_utf32, convert_utf8_to_utf16","convert.cpp")],["instructions executed for each call and selected width"]))
L.append(P("T01","Independent uses never influence each other",
 "Using the library on one object or text gives the same results no matter which other calls on other objects are in progress, interleaved between its steps, running on another thread, or made from inside a receiver callback. No call modifies state shared with other objects other than one-time initialisation.",
 ["schedules","histories"],"all interleavings of the steps of two independent objects for every pair of stateful interfaces; all pairs of concurrent calls (conflict-driven partial-order reduction over instrumented memory accesses)",
 "Shared scratch state only shows under particular interleavings; the tests are sequential.",
 ["scan.cpp","scan.h","normalization.cpp","utf8.cpp","width.cpp","capi.cpp","convert.cpp","word_segmenter.cpp","grapheme_segmenter.cpp","case_mapping.cpp"],
 [("function-local statics","vector width cached on first use","scan.cpp")],[("per-object state structs","scan.h")],["results of each object's steps; memory accesses of each call"]))
L.append(P("B01","Every library call is memory-safe and free of undefined behaviour",
 "Whatever text a caller passes - well-formed, malformed, empty, or with values that are no code points - every call reads only its inputs, writes only its outputs and has no undefined behaviour. Results depend on the inputs alone, not on what memory held before, and no call leaves memory behind.",
 ["inputs","histories"],"bounded-exhaustive execution of every interface in sanitized builds and in two builds with differently filled fresh memory, results compared",
 "An over-read by one unit or an uninitialised field stays invisible in a test unless the neighbouring memory happens to matter.",
 ["convert.h","convert_simd_impl.h","scan_simd_impl.h","scan.cpp","utf8_grapheme_segmenter.h","normalization.cpp","case_mapping.cpp","capi.cpp","word_segmenter.cpp","script_segmenter.cpp","emoji_segmenter.cpp","multistage_table_view.h"],
 [("buffers and cursors","positions inside the caller's text","convert.h")],[("bounds of every loop over text and tables","convert_simd_impl.h")],["sanitizer reports; results compared between builds; live allocations"]))
L.append(P("U01","The query tool shows what the library says about its arguments",
 "unicode-query shows one record per code point its arguments name - numbers in the U+ notation or characters of text - whose fields are the library's answers for that code point, and complains about an argument that names none. For each text, `gc` prints its grapheme clusters and `runs` its ranges with script and presentation, in order and completely; escapes can be read back to the text, and only control codes are escaped unless -e asks for more; success is reported only if all of the output was written.",
 ["inputs","fault_sequences"],"the real program run on every code point in several spellings and on all short texts; its output read back; its output failing at every byte",
 "The tool has no tests at all.",
 ["src/tools/unicode-query.cpp"],[],[("parseChar/parseChars, showCodepointProperties, showGraphemeClusters, showRuns","src/tools/unicode-query.cpp")],["standard output, standard error and exit code"]))
L.append(P("L01","The cost of a call grows linearly with the text",
 "Every call of the library does work proportional to the length of its text, whatever the text contains: four times the text costs about four times the work and memory, never the square. This holds for long runs of combining marks, jamo, regional indicators, joiners, ignorable or malformed input, and where texts alternate between them.",
 ["inputs","histories"],"every pattern over pairs of pieces at two lengths, for every kind of use; executed basic blocks and allocated memory counted",
 "Tests use short texts; a rescan only hurts on long hostile ones.",
 ["normalization.cpp","scan.cpp","grapheme_segmenter.cpp","word_segmenter.cpp","script_segmenter.cpp","emoji_segmenter.cpp","utf8_grapheme_segmenter.h","case_mapping.cpp","capi.cpp","convert.h"],
 [("lookahead, lookbehind, buffers","what the segmenters re-read and the normalizers hold back","word_segmenter.cpp")],[("canonical ordering, segmenter steps","normalization.cpp")],["counted basic blocks, copied bytes, allocations"]))
L.append(P("V01","Objects are values: copies, moves and assignments go on correctly",
 "An object of the library - segmenter, iterator, decoder, normalizer, scan or width state - can be copied, moved, assigned over another one, swapped, saved and restored at any point of a text. Each resulting object goes on exactly as the source would have, whatever then happens to the source, and the source is not affected; reset() or a new value starts over completely.",
 ["histories"],"every object at every step of every short text, every copy/move/assign/swap/restore/destroy operation, all orders of continuing",
 "Tests use each object once, in place, from start to end.",
 ["utf8_grapheme_segmenter.h","grapheme_segmenter.h","word_segmenter.h","script_segmenter.h","emoji_segmenter.h","run_segmenter.h","normalization.h","normalization.cpp","scan.h","width.h","utf8.h","convert.h","support.h","case_mapping.h"],
 [("per-object state","cursors, lookahead, pending input","utf8_grapheme_segmenter.h")],[("copy and move operations, reset","normalization.h")],["what each object finds out from there on; sanitizer reports"]))
L.append(P("P01","Tables state exactly the facts of the data they are generated from",
 "For every well-formed Unicode data directory, the generated tables state exactly its facts for every code point. The layout of the files - how ranges are split, the order of lines, spacing, comments, line ends - makes no difference, and a changed fact changes its own answer and no other, wherever in the code space it lies.",
 ["configurations","inputs"],"every combination of rewritten layouts of all data files, and worlds in which every property takes other values at every edge of the code space; the generator run on each, the library rebuilt and checked against the directory at every code point",
 "The tests and builds see one data directory; a parser or table builder that is right by accident for it stays unnoticed until the next Unicode version.",
 ["tablegen/ucd_parser.cpp","tablegen/multistage_generator.cpp","tablegen/enum_generator.cpp","multistage_table_generator.h"],
 [("parsed data","ranges, mappings and names collected from the files","tablegen/ucd_parser.cpp")],
 [("load*","tablegen/ucd_parser.cpp"),("generate*","tablegen/multistage_generator.cpp")],["every public lookup of the library built from the generated tables"]))
L.append(P("P02","The table generator reports success only for complete tables",
 "When any file operation of the table generator fails - opening, reading, writing or closing, at any point - it says so and exits with a failure, or its tables are complete and right all the same. Interrupted and partial reads and writes make no difference. Whatever a run that was killed leaves behind, the next run makes it right.",
 ["fault_sequences","crash_points"],"every file operation of a run over the Unicode data made to fail, be interrupted, be done in part, or be the last one",
 "Tests never run out of disk space; a build that goes on with truncated tables answers wrongly for ever after.",
 ["tablegen/ucd_parser.cpp","tablegen/enum_generator.cpp","tablegen/ucd_api_generator.cpp","tablegen/case_norm_generator.cpp","tablegen/multistage_generator.cpp","tablegen/tablegen_main.cpp"],
 [("generated files","what has been written so far","tablegen/tablegen_main.cpp")],[("openFile","tablegen/ucd_parser.cpp"),("writing the generated files","tablegen/multistage_generator.cpp")],["exit status and messages of the generator, generated files"]))
L.append(P("F01","Running out of memory is reported and does no further damage",
 "At whichever allocation memory runs out, the call throws std::bad_alloc - or, where it is declared noexcept, ends the program - or still gives its right result; nothing it reported before is wrong and no memory is lost. The object can be destroyed, assigned to and reset, and then works as a new one. Other objects and later calls are not affected.",
 ["fault_sequences","histories"],"every allocation of every use of every interface on every short text made to fail, one at a time; for the streaming objects every way of using them again",
 "Tests never run out of memory.",
 ["normalization.cpp","normalization.h","case_mapping.cpp","convert.h","utf8.h","utf8_grapheme_segmenter.h","script_segmenter.cpp","capi.cpp","width.cpp"],
 [("buffers","pending text and output of streaming normalizers","normalization.h")],[("feed, flush, normalize, case conversion, convert_to","normalization.cpp")],["exceptions, results, blocks in use, results of later calls"]))
L.append(P("K01","The same text gives the same results in every build and every environment",
 "What the library reports about a text does not depend on the compiler, its optimisation level, whether char is signed, or which vector implementation was built. Nor does it depend on the environment it runs in: C locale, C++ global locale, errno, rounding mode, environment variables, working directory, closed standard streams. The same holds for the tables the generator writes and for what the query tool prints.",
 ["configurations","inputs"],"every use of every interface on every short text, in every supported build configuration and environment",
 "The tests run in one build, on one machine type, in the C locale; char is unsigned on ARM and POWER, and an application sets its own locale.",
 ["scan.cpp","convert.h","utf8.h","case_mapping.cpp","ucd_private.h","ucd.cpp","width.cpp","capi.cpp","tablegen/ucd_parser.cpp","tablegen/multistage_generator.cpp","../tools/unicode-query.cpp"],
 [("process environment","locale, errno, rounding mode, variables, directory","ucd.cpp")],[("conversions between char and wider types","convert.h"),("parsing and formatting of numbers","tablegen/ucd_parser.cpp")],["results of every interface, generated files, output of unicode-query"]))
L.append(P("I01","The library works whenever it is called, from before main until after exit",
 "Every interface gives the same results before main, during static initialisation of other files, at exit when static objects are already destroyed, while a thread ends, in a thread with little stack, in a forked child, in a signal handler and while an exception is under way. Nothing a call needs is missing yet, gone already or tied to the thread that called first.",
 ["histories","configurations"],"every use of every interface on every short text at each of these moments, after none and after some earlier use",
 "Unit tests call from main only, when everything has been initialised and nothing has been destroyed.",
 ["scan.h","scan.cpp","convert.cpp","simd_detector.cpp","normalization.cpp","case_mapping.cpp","ucd_private.h","codepoint_properties.h","script_segmenter.cpp"],
 [("static and thread-local objects","null_receiver, detected vector width","scan.h")],[("lookups in constant tables","ucd_private.h"),("detection of the vector width","simd_detector.cpp")],["results of every interface"]))
L.append(P("H01","Texts of more than 2 and 4 GiB are handled like short ones",
 "Segmenters, scanners and conversions give for a text of more than 2^31 or 2^32 units the segments, counts and positions that its parts have in short texts: no offset, count or length is cut to 31 or 32 bits. The same holds for limits and buffer lengths of that size, wherever a text begins or ends around these lengths.",
 ["inputs"],"lengths around 2^31 and 2^32 x beginnings, one segment or many, every view-based interface; texts repeat a mapped file and take no memory",
 "No test can afford such texts, and a narrow counter behaves on all others.",
 ["scan.cpp","scan_simd_impl.h","convert.h","convert_simd_impl.h","emoji_segmenter.cpp","emoji_segmenter.h","script_segmenter.cpp","script_segmenter.h","run_segmenter.h","word_segmenter.h","grapheme_segmenter.h","utf8_grapheme_segmenter.h","capi.cpp"],
 [("offsets and sizes","positions of the segmenters and scanners","script_segmenter.h")],[("consume, operator++","emoji_segmenter.cpp"),("scan_text","scan.cpp"),("bulk decoders","convert_simd_impl.h")],["ends and properties of segments, counts"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        n=p['statement'].count('. ')+1
        assert n<=3,(p['id'],n)
        f.write(json.dumps(p)+'\n')
print(len(L))
