From fdf9aedb4c95200e0e7c3db55c668fc5a9e4d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 01/38] fix: count regional indicators independently of where
 the grapheme cluster began

The pairing of regional indicators was only correct when the first one was the
codepoint passed to grapheme_process_init(). After a Prepend character, or when
the state is not re-initialized at a break (as scan_text drives it), the flag
was split.
---
 src/libunicode/grapheme_segmenter.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..46e8755 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -41,15 +41,12 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousCodepoint = b;
     state.previousProperties = Pb;
 
-    {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
-        //
-        // We move the state.ri_counter out to help GCC optimize
-        // this code to be branchless.
-        // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
-    }
+    // Count the consecutive Regional_Indicators up to and including the next codepoint (modulo 2).
+    // This must not depend on whether one of the rules below ends up breaking, as a run of
+    // Regional_Indicators may start behind any codepoint (e.g. Prepend), and the caller need not
+    // re-initialize the state after a break.
+    auto const prev_ri_counter = state.ri_counter;
+    state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>((prev_ri_counter + 1) % 2) : 0;
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
     if (A == Grapheme_Cluster_Break::CR && B == Grapheme_Cluster_Break::LF)
@@ -143,11 +140,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && prev_ri_counter == 1)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 8b5ca32810fa85fc63b8fb4db937a41e3f5f622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 02/38] fix: GB11 joins only an Extended_Pictographic directly
 behind the ZWJ of its sequence

ExtPic ZWJ ZWJ ExtPic (and ZWJ Extend ZWJ) were kept in one cluster; UAX #29
requires ExtPic Extend* ZWJ x ExtPic, and ZWJ is not of class Extend.
---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index 46e8755..79abeb9 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -84,8 +84,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2; // complete - only an ExtPic directly behind this ZWJ joins
         else
             state.extpic_state = 0;
     }
@@ -134,7 +136,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 295b667f8df775d2f7c5db81f9b90ef679c8c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/38] fix: from_utf8 must not take a non-continuation byte
 into a multi-byte character

A US-ASCII byte (or 0xF8..0xFF) behind an incomplete sequence was merged into
the character, inventing one (C3 41 -> U+00C1) and running past the NUL of a
truncated string. Report Invalid instead.
---
 src/libunicode/utf8.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 082e607..7785fc6 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -63,6 +63,12 @@ ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
         from_utf8(state, value);
         return { Invalid {} };
     }
+    else if ((value & 0b1100'0000) != 0b1000'0000)
+    {
+        // Neither a continuation nor a lead byte, so the current codepoint remains incomplete.
+        state.expectedLength = 0;
+        return { Invalid {} };
+    }
     else
     {
         state.character <<= 6;
-- 
2.43.0


From 6c56633439d6b3a0fb0e6f501d81998ca68da9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 04/38] fix: bulk UTF-8 decoding must not swallow the character
 behind an incomplete one

decoder<char> merged any byte into a pending sequence, so a truncated character
altered or removed the characters behind it (C3 C3 A9 -> U+00C3, U+00E9 lost).
---
 src/libunicode/convert.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..64a82e0 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -69,6 +69,10 @@ struct decoder<char> // {{{
 
     constexpr std::optional<char32_t> operator()(uint8_t byte)
     {
+        // Any byte but a continuation byte ends an incomplete sequence and starts over.
+        if ((byte & 0b1100'0000) != 0b1000'0000)
+            expectedLength = 0;
+
         if (!expectedLength)
         {
             if ((byte & 0b1000'0000) == 0)
-- 
2.43.0


From 013b3565317308d18a7d833837b99959f70dc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 05/38] fix: convert_to must not read past the end of truncated
 UTF-8 or UTF-16 input

The iterator based decoders dereference the end of the input when the last
character is incomplete.
---
 src/libunicode/convert.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 64a82e0..a5f22ce 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -346,7 +346,22 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         encoder<T> write {};
         while (i != e)
         {
-            auto const outChar = read(i);
+            auto const outChar = [&]() -> std::optional<char32_t> {
+                if constexpr (std::is_same_v<S, char>)
+                    // Byte by byte, as decoding from an iterator cannot know where the input ends.
+                    return read(static_cast<uint8_t>(*i++));
+                else if constexpr (sizeof(S) == 2)
+                {
+                    if ((*i >> 10) == 0x36 && std::next(i) == e)
+                    {
+                        ++i; // High surrogate without its low surrogate at the end of input.
+                        return std::nullopt;
+                    }
+                    return read(i);
+                }
+                else
+                    return read(i);
+            }();
             if (outChar.has_value())
                 output = write(outChar.value(), output);
         }
-- 
2.43.0


From a042eed69df8324785ade3738ef3cfb6cb0e9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 06/38] fix: reject overlong, surrogate and out-of-range UTF-8
 sequences

C1 81 decoded to U+0041, ED A0 80 to a surrogate and F7 BF BF BF to U+1FFFFF,
i.e. malformed bytes were turned into characters.
---
 src/libunicode/convert.h | 14 ++++++++++++++
 src/libunicode/utf8.cpp  |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index a5f22ce..4aa2aad 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -24,6 +24,17 @@
 namespace unicode
 {
 
+namespace detail
+{
+    /// Tests if a character decoded from a UTF-8 sequence of the given length is well-formed,
+    /// that is, neither overlong, nor a surrogate, nor beyond U+10FFFF.
+    constexpr bool is_well_formed_utf8(char32_t character, unsigned length) noexcept
+    {
+        auto const minimum = length == 2 ? 0x80u : length == 3 ? 0x800u : length == 4 ? 0x10000u : 0u;
+        return character >= minimum && character <= 0x10FFFF && !(character >= 0xD800 && character <= 0xDFFF);
+    }
+} // namespace detail
+
 // clang-format off
 template <typename T> struct decoder;
 template <typename T> struct encoder;
@@ -111,7 +122,10 @@ struct decoder<char> // {{{
         if (currentLength < expectedLength)
             return std::nullopt; // incomplete
 
+        auto const length = expectedLength;
         expectedLength = 0; // reset state
+        if (!detail::is_well_formed_utf8(character, length))
+            return std::nullopt; // invalid
         return character;
     }
 
diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 7785fc6..1367dfd 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -11,6 +11,7 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+#include <libunicode/convert.h>
 #include <libunicode/utf8.h>
 
 namespace unicode
@@ -80,6 +81,8 @@ ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
         return { Incomplete {} };
 
     state.expectedLength = 0; // reset state
+    if (!detail::is_well_formed_utf8(state.character, state.currentLength))
+        return { Invalid {} };
     return { Success { state.character } };
 }
 
-- 
2.43.0


From 91e6804e36ee3067a702c81f51ecb2a3c706e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 07/38] fix: ASCII scan must not form a pointer before an empty
 or short text

For an empty view at address zero, end - simd_size wrapped around and the scan
dereferenced a null pointer.
---
 src/libunicode/scan_simd_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/scan_simd_impl.h b/src/libunicode/scan_simd_impl.h
index d00b02e..45ec930 100644
--- a/src/libunicode/scan_simd_impl.h
+++ b/src/libunicode/scan_simd_impl.h
@@ -29,7 +29,7 @@ size_t scan_for_text_ascii_simd(std::string_view text, size_t maxColumnCount) no
 
 #if defined(USE_STD_SIMD)
     auto simd_text = stdx::fixed_size_simd<char, simd_size> {};
-    while (input < end - simd_size)
+    while (end - input > simd_size)
     {
         simd_text.copy_from(input, stdx::element_aligned);
         auto const is_control_mask = simd_text < static_cast<char>(0x20);
@@ -73,7 +73,7 @@ size_t scan_for_text_ascii_simd(std::string_view text, size_t maxColumnCount) no
     auto const vec_control = intrinsics::set1_epi8(0x20); // 0..0x1F
     auto const vec_complex = intrinsics::set1_epi8(-128); // equals to 0x80 (0b1000'0000)
 
-    while (input < end - simd_size)
+    while (end - input > simd_size)
     {
         auto const batch = intrinsics::load(input);
         auto const is_control_mask = intrinsics::less(batch, vec_control);
-- 
2.43.0


From 7b57d490ad0affaf12d82a395d4666d5523c3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 08/38] fix: NFC/NFKC must keep marks behind the starter they
 follow

---
 src/libunicode/normalization.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..70a6b5c 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,9 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The starter stays in front of the marks that do not compose with it.
+        size_t starter = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,19 +216,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starter], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starter] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starter = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -239,7 +241,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From 815ddf1c380b02b30f20488e5ba531988f0a917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 09/38] fix: U+11A7 is not a trailing jamo and must not be
 composed away

---
 src/libunicode/normalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 70a6b5c..ee100e9 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,7 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From de59e6b9e949cb44cb23e913d382b459d57d00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 10/38] fix: is_full_composition_exclusion must cover
 singletons and non-starter decompositions

---
 src/libunicode/normalization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index ee100e9..874e11f 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -298,7 +298,8 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    // NFC_Quick_Check=No and Full_Composition_Exclusion are the same set of codepoints (UAX #44).
+    return contains_codepoint(detail::nfc_qc_no_table, codepoint);
 }
 
 // ============================================================================
-- 
2.43.0


From a42397202c0fdcbe7e1b43b857ca4ed205fb317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 11/38] fix: streaming NFD/NFKD must not cut before a starter
 that decomposes to non-starters first

---
 src/libunicode/normalization.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 874e11f..f31aedd 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -156,6 +156,20 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    // First codepoint of the full decomposition
+    [[nodiscard]] char32_t first_of_decomposition(char32_t cp, bool compatibility) noexcept
+    {
+        while (true)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, cp);
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, cp);
+            if (decomp.empty())
+                return cp;
+            cp = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -549,9 +563,13 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition
+    // begins with a non-starter (which may be reordered with the preceding segment)
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+    {
+        auto const first = first_of_decomposition(codepoint, _form == Normalization_Form::NFKD);
+        return canonical_combining_class(first) == 0;
+    }
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From 9be50d15e85eb0459059d293a8169b7d7e684114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/38] fix: utf8_normalizer must not lose an ASCII character
 behind an incomplete one

---
 src/libunicode/normalization.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index f31aedd..b3c23b3 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -625,21 +625,26 @@ std::string_view utf8_normalizer::feed(std::string_view utf8Data)
 {
     _utf8Output.clear();
 
+    auto const feedCodepoint = [this](char32_t cp) {
+        auto segment = _inner.feed(cp);
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    };
+
     for (auto byte: utf8Data)
     {
+        bool const pending = _utf8State.expectedLength != 0;
         auto const result = from_utf8(_utf8State, static_cast<uint8_t>(byte));
 
-        char32_t cp {};
         if (std::holds_alternative<Success>(result))
-            cp = std::get<Success>(result).value;
+            feedCodepoint(std::get<Success>(result).value);
         else if (std::holds_alternative<Invalid>(result))
-            cp = char32_t { 0xFFFD }; // Replace invalid sequences with U+FFFD
-        else
-            continue; // Incomplete: continue buffering UTF-8 bytes
-
-        auto segment = _inner.feed(cp);
-        if (!segment.empty())
-            convert_to<char>(segment, std::back_inserter(_utf8Output));
+        {
+            feedCodepoint(char32_t { 0xFFFD }); // Replace invalid sequences with U+FFFD
+            if (pending && static_cast<uint8_t>(byte) < 0x80)
+                feedCodepoint(static_cast<uint8_t>(byte)); // The ASCII character that broke off the pending one
+        }
+        // Incomplete: continue buffering UTF-8 bytes
     }
 
     return _utf8Output;
-- 
2.43.0


From 46cded178a657a3125459bfb8e6f2d3055cf9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 13/38] fix: utf8_normalizer::flush must not leave a partial
 character behind

---
 src/libunicode/normalization.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index b3c23b3..a9f3082 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -654,6 +654,15 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    if (_utf8State.expectedLength)
+    {
+        // The input ends within a character
+        _utf8State = {};
+        auto segment = _inner.feed(char32_t { 0xFFFD });
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    }
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
-- 
2.43.0


From 25d024aa8c242d161443e9198202f0366a6e145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 14/38] fix: utf8_grapheme_segmenter must not lose an ASCII
 character behind an incomplete one

---
 src/libunicode/utf8_grapheme_segmenter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..0fc509c 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -117,7 +117,9 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
     _nextCodepointStart = _nextUtf8;
     while (_nextUtf8 != _end)
     {
-        _result = from_utf8(_utf8_decoder_state, uint8_t(*_nextUtf8++));
+        auto const byte = uint8_t(*_nextUtf8++);
+        auto const pending = _utf8_decoder_state.expectedLength != 0;
+        _result = from_utf8(_utf8_decoder_state, byte);
         if (std::holds_alternative<Success>(_result))
         {
             auto const result = _nextCodepoint;
@@ -126,6 +128,12 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
         }
         if (std::holds_alternative<Invalid>(_result))
         {
+            if (pending && (byte & 0b1100'0000) != 0b1000'0000)
+            {
+                // The byte broke off an incomplete codepoint but does not belong to it.
+                _utf8_decoder_state = {};
+                --_nextUtf8;
+            }
             auto const result = _nextCodepoint;
             _nextCodepoint = ReplacementChar;
             return result;
-- 
2.43.0


From b1a7ce30ad11c7ae8176c8ef65441d5ab5642614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 15/38] fix: utf8_grapheme_segmenter must yield U+FFFD, not
 U+0000, for an incomplete character at the end

---
 src/libunicode/utf8_grapheme_segmenter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 0fc509c..1e15780 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -140,7 +140,8 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
         }
     }
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    // An incomplete codepoint at the end of the text is a malformed one.
+    _nextCodepoint = _nextCodepointStart != _end ? ReplacementChar : char32_t {};
     return result;
 }
 
-- 
2.43.0


From 7ab8e7b75c1a58a5917b70180ebb40c9ed5f4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 16/38] fix: u32u8_convert must accept an output buffer that
 fits exactly

---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From 44cf6172c456be6baeb96d9fbb684aadd948ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 17/38] fix: u32_gc_width/u8_gc_width must not access the first
 codepoint of an empty text

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From c8ea34eb08256ea954e8c02b5ffa0f8556524135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 18/38] fix: capi.h must compile as C and declare its functions
 extern "C" for C++

---
 src/libunicode/capi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..7834dd0 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From 71572b40e40cedd997ca336909559edc95b6df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 19/38] fix: unbalanced parenthesis in u32_is_valid_codepoint

---
 src/libunicode/capi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 7834dd0..5cf8ade 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -38,7 +38,7 @@ extern "C"
  * Verifies that _p codepoint is a valid codepoint,
  */
 #define u32_is_valid_codepoint(_codepoint) \
-    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF)
+    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF))
 
 /**
  * Extracts the unused higher order bits and moves them bit-wise to the right.
-- 
2.43.0


From bcde4fe784e4c455e5990830eeb8dadea1381c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 20/38] fix: word_process_init must forget transparent
 characters of an earlier text

---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From d497aeca6e6e8703484c7dbdd408d1adad12e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 21/38] fix: table compressor must compare blocks by value

Block deduplication hashed and compared the object representation of the
elements, which for std::string differs between equal values: all 4352 blocks
of the name table were stored, their numbers truncated to the 8 bit stage 1, and
names of supplementary characters were those of other characters. Numbers that
do not fit are an error now, and tables that fill their index type terminate.
---
 src/libunicode/multistage_table_generator.h | 35 +++++++++++----------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..534023f 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -78,7 +78,7 @@ class multistage_table_generator
     {
         assert(_inputSize % BlockSize == 0);
         _output.stage1.resize(_inputSize / BlockSize);
-        for (SourceType blockStart = 0; blockStart <= _inputSize - BlockSize; blockStart += BlockSize)
+        for (size_t blockStart = 0; blockStart < _inputSize; blockStart += BlockSize)
             _output.stage1[blockStart / BlockSize] = get_or_create_index_to_stage2_block(blockStart);
     }
 
@@ -105,16 +105,17 @@ class multistage_table_generator
         }
     }
 
-    Stage1ElementType get_or_create_index_to_stage2_block(SourceType blockStart)
+    Stage1ElementType get_or_create_index_to_stage2_block(size_t blockStart)
     {
-        if (auto other_block = find_same_block(static_cast<size_t>(blockStart)))
+        if (auto other_block = find_same_block(blockStart))
             return _output.stage1[other_block.value()];
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        if (stage2Index > std::numeric_limits<Stage1ElementType>::max())
+            throw std::length_error("multistage table: too many distinct blocks for the stage 1 element type");
 
-        for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
+        for (size_t index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
 
         assert(_output.stage2.size() % BlockSize == 0);
@@ -122,15 +123,16 @@ class multistage_table_generator
         return static_cast<Stage1ElementType>(stage2Index);
     }
 
-    /// FNV-1a hash over a block of elements.
-    size_t hashBlock(size_t blockStart) const noexcept
+    /// Hash over the values of a block of elements.
+    ///
+    /// The elements' object representations must not be used here: that of a std::string, for example,
+    /// differs between equal strings, so that no two blocks would ever be found to be the same.
+    size_t hashBlock(size_t blockStart) const
     {
         size_t hash = 14695981039346656037ULL;
-        auto const* bytes = reinterpret_cast<char const*>(&_input[blockStart]);
-        auto const byteCount = BlockSize * sizeof(T);
-        for (size_t i = 0; i < byteCount; ++i)
+        for (size_t i = 0; i < BlockSize; ++i)
         {
-            hash ^= static_cast<size_t>(static_cast<unsigned char>(bytes[i]));
+            hash ^= _valueHasher(_input[blockStart + i]);
             hash *= 1099511628211ULL;
         }
         return hash;
@@ -152,20 +154,19 @@ class multistage_table_generator
         return std::nullopt;
     }
 
-    bool is_same_block(size_t a, size_t b) const noexcept
-    {
-        return std::memcmp(&_input[a], &_input[b], BlockSize * sizeof(T)) == 0;
-    }
+    bool is_same_block(size_t a, size_t b) const { return std::equal(_input + a, _input + a + BlockSize, _input + b); }
 
-    Stage2ElementType get_or_create_stage3_index(SourceType stage1Index)
+    Stage2ElementType get_or_create_stage3_index(size_t stage1Index)
     {
         auto const& value = _input[stage1Index];
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
             return it->second;
 
+        if (_output.stage3.size() > std::numeric_limits<Stage2ElementType>::max())
+            throw std::length_error("multistage table: too many distinct values for the stage 2 element type");
+
         auto const stage3Index = static_cast<Stage2ElementType>(_output.stage3.size());
         _output.stage3.emplace_back(value);
-        assert(stage3Index < std::numeric_limits<Stage2ElementType>::max());
         _stage3Map[value] = stage3Index;
         return stage3Index;
     }
-- 
2.43.0


From 053a1869d9011caedc1851c492f823b372ce1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 22/38] fix: scan_text must report positions in the text it was
 given

---
 src/libunicode/scan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..6133491 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -269,8 +269,9 @@ scan_result scan_text(scan_state& state,
 
     auto result = scan_result { 0, text.data(), text.data() };
 
-    if (state.next == nullptr)
-        state.next = text.data();
+    // Whatever position an earlier call ended at, this one starts at the text it was given: the caller may
+    // have skipped a control in between, or moved on to another buffer.
+    state.next = text.data();
 
     // If state indicates that we previously started consuming a UTF-8 sequence but did not complete yet,
     // attempt to finish that one first.
-- 
2.43.0


From 0d9e616e15b91fcec8923015f6a1b01c25ccfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 23/38] fix: scan_text at a control must close the cluster an
 earlier call left open

---
 src/libunicode/scan.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 6133491..94d6522 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -60,6 +60,15 @@ namespace
     {
         return static_cast<uint8_t>(ch) & 0x80;
     }
+
+    // Forgets the open cluster: the next codepoint begins a new one.
+    void close_cluster(scan_state& state) noexcept
+    {
+        state.lastCodepointHint = 0;
+        state.graphemeState = {};
+        state.clusterWidth.reset();
+        state.reportedClusterWidth = 0;
+    }
 } // namespace
 
 size_t detail::scan_for_text_ascii(string_view text, size_t maxColumnCount) noexcept
@@ -292,7 +301,13 @@ scan_result scan_text(scan_state& state,
             case NextState::Trivial: {
                 auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
                 if (!count)
+                {
+                    // A control ends whatever cluster an earlier call left open, whether or not there was
+                    // any text in front of it.
+                    if (is_control(text.front()))
+                        close_cluster(state);
                     return result;
+                }
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
                 // A cluster does not have to respect the boundary between the two scanners: the last
-- 
2.43.0


From d93826d26578e8c11cda88af04b9d653625c821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 24/38] fix: scan_text must hand out malformed bytes once, and
 in no cluster

---
 src/libunicode/scan.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 94d6522..163d63b 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -128,7 +128,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
             // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
+            flushOpenCluster(input - byteCount);
 
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
@@ -136,6 +136,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 ++count;
                 receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
+                clusterStart = input;
             }
             state.lastCodepointHint = 0;
             state.graphemeState = {};
@@ -238,13 +239,19 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
             state.reportedClusterWidth = 0;
             state.lastCodepointHint = 0;
             state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
+
+            // The malformed bytes have been reported, so they belong to what was scanned -- but to no
+            // cluster. The byte that revealed them may already have begun the next codepoint, in which
+            // case it is pending in the decoder and must not be dropped.
+            byteCount = state.utf8.expectedLength ? state.utf8.currentLength : 0;
+            resultEnd = input - byteCount;
+            clusterStart = resultEnd;
         }
     }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+    // Hand over whatever cluster the scan ended inside of, without the bytes of a codepoint that is
+    // still incomplete.
+    flushOpenCluster(resultEnd);
 
     assert(resultStart <= resultEnd);
 
-- 
2.43.0


From 5a4405482b3a424668686f6c3ee460bb2e58a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 25/38] fix: scan_text must take up what did not fit where it
 left off

---
 src/libunicode/scan.cpp | 49 +++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 163d63b..79de3af 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -97,17 +97,18 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* start = text.data();
     char const* end = start + text.size();
     char const* input = start;
-    char const* clusterStart = start;
 
-    unsigned byteCount = 0; // bytes consumed for the current codepoint
+    // Bytes of the current codepoint, including those an earlier call has already consumed.
+    unsigned byteCount = state.utf8.expectedLength ? state.utf8.currentLength : 0;
 
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
     // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
     size_t clusterWidthCountedHere = 0;
 
-    char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
+    char const* resultStart = start - byteCount;
     char const* resultEnd = resultStart;
+    char const* clusterStart = resultStart;
 
     // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
     // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
@@ -119,6 +120,25 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         clusterStart = clusterEnd;
     };
 
+    // Stops the scan in front of something that does not fit, leaving the state the next call needs to
+    // take it up again. If nothing precedes it in this call that is the state at entry, including the
+    // bytes of its first codepoint that an earlier call has consumed and the cluster it may continue.
+    auto const entryState = state;
+    auto const putBack = [&](char const* position) noexcept {
+        flushOpenCluster(resultEnd);
+        if (position == resultStart)
+        {
+            input = start;
+            state = entryState;
+        }
+        else
+        {
+            input = position;
+            state.utf8 = {};
+            close_cluster(state);
+        }
+    };
+
     while (input != end && count <= maxColumnCount)
     {
         // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
@@ -127,6 +147,13 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         // part of its multi-byte codepoint.
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
+            if (state.utf8.expectedLength && count == maxColumnCount)
+            {
+                // No column left for the incomplete sequence.
+                putBack(input - byteCount);
+                break;
+            }
+
             // A control ends whatever cluster was open, so hand it over before dropping the state.
             flushOpenCluster(input - byteCount);
 
@@ -179,7 +206,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                 if (count + nextWidth > maxColumnCount)
                 {
                     // Currently scanned grapheme cluster won't fit. Break at its start.
-                    input = codepointStart;
+                    putBack(codepointStart);
                     break;
                 }
 
@@ -209,10 +236,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         // back -- a caller cannot render part of one -- and un-count only what this
                         // call contributed to it.
                         count -= clusterWidthCountedHere;
-                        input = clusterStart;
                         resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        putBack(clusterStart);
                         break;
                     }
                     count += added;
@@ -231,6 +256,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         else
         {
             assert(holds_alternative<Invalid>(result));
+            if (count == maxColumnCount)
+            {
+                putBack(input - byteCount);
+                break;
+            }
             flushOpenCluster(input - byteCount);
             count++;
             receiver.receiveInvalidGraphemeCluster();
@@ -294,6 +324,11 @@ scan_result scan_text(scan_state& state,
     if (state.utf8.expectedLength != 0)
     {
         result = detail::scan_for_text_nonascii(state, text, maxColumnCount, receiver);
+
+        // Either the sequence is still incomplete or what it completed to does not fit.
+        if (state.utf8.expectedLength != 0)
+            return result;
+
         text = std::string_view(result.end, static_cast<size_t>(std::distance(result.end, text.data() + text.size())));
     }
 
-- 
2.43.0


From f5b02d9d50d265093bd02d8680fbedb37e6c9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 26/38] fix: unicode-query must escape control codes only, and
 with two digits

---
 src/tools/unicode-query.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 18bf2cd..833ec69 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -42,10 +42,11 @@ namespace
 std::string escapeControlCodes(std::string const& text)
 {
     auto result = stringstream {};
+    result << std::hex << setfill('0');
     for (char const ch: text)
     {
-        if (ch < 0x20)
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+        if (static_cast<unsigned char>(ch) < 0x20)
+            result << "\\x" << setw(2) << (unsigned(ch) & 0xFF);
         else
             result << ch;
     }
@@ -55,12 +56,13 @@ std::string escapeControlCodes(std::string const& text)
 std::string escaped(std::string const& text)
 {
     auto result = stringstream {};
+    result << std::hex << setfill('0');
     for (char const ch: text)
     {
-        if (std::isprint(ch) && ch != '"')
+        if (std::isprint(static_cast<unsigned char>(ch)) && ch != '"')
             result << ch;
         else
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setw(2) << (unsigned(ch) & 0xFF);
     }
     return result.str();
 }
-- 
2.43.0


From 2248a5fe2cc81d4d153e0d974095c39940c103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 27/38] fix: unicode-query must not show a record for what is
 no code point

---
 src/tools/unicode-query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 833ec69..16dbff2 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -104,7 +104,7 @@ optional<char32_t> parseChar(std::string_view text)
 
     auto value = uint32_t {};
     auto const result = std::from_chars(text.data(), text.data() + text.size(), value, 16);
-    if (result.ptr != text.data() + text.size())
+    if (result.ec != std::errc {} || result.ptr != text.data() + text.size() || value > 0x10FFFF)
         return nullopt;
     return { static_cast<char32_t>(value) };
 }
-- 
2.43.0


From b458d9891ad51b06060fd0fc7dbb010ff3b2882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 28/38] fix: unicode-query must show unassigned code points

---
 src/tools/unicode-query.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 16dbff2..6daca31 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -133,6 +133,8 @@ string prettyAge(unicode::Age age)
     // clang-format off
     string str = [=]() { auto s = ostringstream(); s << age; return s.str(); }();
     // clang-format on
+    if (age == unicode::Age::Unassigned)
+        return str;
     assert(str.at(0) == 'V');
     str = str.substr(1);
     replace(str.begin(), str.end(), '_', '.');
-- 
2.43.0


From 300ef3b281b374c5d76b7d2d78925e668ce3d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 29/38] fix: canonical ordering must not take quadratic time on
 long runs of combining marks

---
 src/libunicode/normalization.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a9f3082..6df81be 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -173,25 +173,16 @@ namespace
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
-        if (text.size() < 2)
-            return;
+        auto const isMark = [](char32_t codepoint) { return canonical_combining_class(codepoint) != 0; };
+        auto const byClass = [](char32_t a, char32_t b) { return canonical_combining_class(a) < canonical_combining_class(b); };
 
-        // Bubble sort adjacent combining marks by CCC (stable)
-        for (size_t i = 1; i < text.size(); ++i)
+        // Sort every run of combining marks by CCC (stable)
+        for (auto first = std::find_if(text.begin(), text.end(), isMark); first != text.end();)
         {
-            auto const ccc_i = canonical_combining_class(text[i]);
-            if (ccc_i == 0)
-                continue; // Starter, no reordering needed
-
-            size_t j = i;
-            while (j > 0)
-            {
-                auto const ccc_prev = canonical_combining_class(text[j - 1]);
-                if (ccc_prev == 0 || ccc_prev <= ccc_i)
-                    break;
-                std::swap(text[j - 1], text[j]);
-                --j;
-            }
+            auto const last = std::find_if_not(first, text.end(), isMark);
+            if (!std::is_sorted(first, last, byClass))
+                std::stable_sort(first, last, byClass);
+            first = std::find_if(last, text.end(), isMark);
         }
     }
 
-- 
2.43.0


From 4b84bf3a56bf44de114a7baf33e3f452fa18e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 30/38] fix: recognize conditional special casings on lines
 without a comment

A line of SpecialCasing.txt was only taken as conditional if a comment followed
its condition list; a data file without comments turned the Turkish and
Lithuanian mappings and the final sigma into unconditional ones.
---
 src/libunicode/tablegen/ucd_parser.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index f2d46f7..9ac9d04 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -733,7 +733,7 @@ void UcdParser::loadSpecialCasing()
 
         // Format: <code>; <lower>; <title>; <upper>; (<condition_list>;)? # <comment>
         std::vector<std::string_view> parts;
-        std::string_view sv(trimmed);
+        auto const sv = std::string_view(trimmed).substr(0, trimmed.find('#'));
         size_t pos = 0;
         for (size_t i = 0; i <= sv.size(); ++i)
         {
@@ -746,15 +746,9 @@ void UcdParser::loadSpecialCasing()
         if (parts.size() < 4)
             continue;
 
-        // Check for conditional mappings: skip them (have > 4 fields before '#')
-        auto commentIdx = trimmed.find('#');
-        if (commentIdx != std::string::npos)
-        {
-            auto beforeComment = std::string_view(trimmed).substr(0, commentIdx);
-            auto fieldCount = std::count(beforeComment.begin(), beforeComment.end(), ';');
-            if (fieldCount > 4)
-                continue;
-        }
+        // Check for conditional mappings: skip them (have a condition list, whether or not a comment follows)
+        if (parts.size() > 4 && !trim(parts[4]).empty())
+            continue;
 
         auto cp = parseCodepoint(parts[0]);
         auto lower = parseCodepoints(parts[1]);
-- 
2.43.0


From ae6cd884e485ae03de288fa500c3a53d77f0b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 31/38] fix: keep the full composition exclusions out of the
 composition exclusions

The property name was compared with its trailing comment, so the branch never
matched on a line with a comment; on a line without one it made
is_composition_exclusion() answer for Full_Composition_Exclusion instead of
CompositionExclusions.txt.
---
 src/libunicode/tablegen/ucd_parser.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 9ac9d04..65dd883 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -877,10 +877,6 @@ void UcdParser::loadDerivedNormalizationProps()
                 if (value == "N")
                     _nfkdQcNo.insert(cp);
             }
-            else if (prop == "Full_Composition_Exclusion")
-            {
-                _compositionExclusions.insert(cp);
-            }
         }
     }
 }
-- 
2.43.0


From 897869e19e738ac9a68bbf5cd036d097c48d7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 32/38] fix: sort the ranges of each general category

Every other table is sorted after it was read; these were searched by bisection
in the order of the lines of DerivedGeneralCategory.txt.
---
 src/libunicode/tablegen/ucd_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 65dd883..08b4708 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -360,6 +360,9 @@ void UcdParser::loadGeneralCategory()
         _generalCategory.push_back({ parsed->first, parsed->last, prop, comment });
     }
     std::sort(_generalCategory.begin(), _generalCategory.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
+    // The tables are searched by bisection, whatever order the lines come in.
+    for (auto& [key, ranges]: _generalCategoryMap)
+        std::sort(ranges.begin(), ranges.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
 }
 
 // ---- Core Properties ----
-- 
2.43.0


From 2bbf0cf8ba3c1d5d93d3553d5cbf01c79b20dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 33/38] fix: let the titlecase mapping default to the uppercase
 mapping

UAX #44: a character whose titlecase field is null has its uppercase mapping as
titlecase mapping. (Unicode 15.1 itself repeats the mapping in both fields.)
---
 src/libunicode/tablegen/ucd_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 08b4708..17f8476 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -665,8 +665,10 @@ void UcdParser::loadUnicodeData()
         if (!lowerField.empty())
             _simpleLowercase[cp] = parseCodepoint(lowerField);
 
-        // Field 14: Simple Titlecase Mapping
+        // Field 14: Simple Titlecase Mapping (if left out, the uppercase mapping)
         auto titleField = trim(fields[14]);
+        if (titleField.empty())
+            titleField = upperField;
         if (!titleField.empty())
             _simpleTitlecase[cp] = parseCodepoint(titleField);
     }
-- 
2.43.0


From 5d03f1a946b70848081216486b90f8fb9985b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 34/38] fix: keep a data comment that ends in a backslash from
 swallowing a table entry

Comments of the data files are copied into the generated C++ as line comments;
a final backslash joined the next line, an entry of the table, to the comment.
---
 src/libunicode/tablegen/ucd_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 17f8476..7398365 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -98,6 +98,9 @@ namespace
         if (hashPos != std::string_view::npos)
         {
             result.comment = trim(line.substr(hashPos + 1));
+            // It goes into a C++ comment, where a final backslash would make the next line a part of it.
+            while (!result.comment.empty() && result.comment.back() == '\\')
+                result.comment = trim(result.comment.substr(0, result.comment.size() - 1));
             line = line.substr(0, hashPos);
         }
 
-- 
2.43.0


From eb1b8b30663910cc42021c19d810f238a7e8b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 35/38] fix: scan_text() without a receiver works while the
 program exits

The receiver it falls back to was destroyed with the other function-local statics, so a call made later on
used a destroyed object.
---
 src/libunicode/scan.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/scan.h b/src/libunicode/scan.h
index e263fe5..42e78d6 100644
--- a/src/libunicode/scan.h
+++ b/src/libunicode/scan.h
@@ -17,6 +17,8 @@
 #include <libunicode/utf8.h>
 #include <libunicode/width.h>
 
+#include <cstddef>
+#include <new>
 #include <string_view>
 
 namespace unicode
@@ -87,8 +89,10 @@ class null_receiver final: public grapheme_cluster_receiver
 
     static null_receiver& get() noexcept
     {
-        static null_receiver instance {};
-        return instance;
+        // Never destroyed, so that what is destroyed at exit can still scan text.
+        alignas(null_receiver) static std::byte storage[sizeof(null_receiver)];
+        static auto* const instance = new (storage) null_receiver {};
+        return *instance;
     }
 };
 
-- 
2.43.0


From daf1ac1df71bf7ef286c38a9a904e4638d5d6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 36/38] fix: the table generator does not take a read error for
 the end of a file

Tables generated from a part of the data were reported as success.
---
 src/libunicode/tablegen/ucd_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/tablegen/ucd_parser.cpp b/src/libunicode/tablegen/ucd_parser.cpp
index 7398365..3c174ea 100644
--- a/src/libunicode/tablegen/ucd_parser.cpp
+++ b/src/libunicode/tablegen/ucd_parser.cpp
@@ -69,6 +69,7 @@ namespace
         auto f = std::ifstream(path);
         if (!f.is_open())
             throw std::runtime_error("Failed to open file: " + path);
+        f.exceptions(std::ios::badbit); // A read error must not pass for the end of the file.
         return f;
     }
     /// Parsed result from a standard UCD data line.
-- 
2.43.0


From c97ed2b566b06001a1e5df2b00a98684abae8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 37/38] fix: the table generator fails if it cannot write its
 files

Files that could not be opened, or not written completely, were reported as success.
---
 src/libunicode/tablegen/case_norm_generator.cpp  |  3 ++-
 src/libunicode/tablegen/enum_generator.cpp       |  9 ++++++---
 src/libunicode/tablegen/enum_utils.h             | 12 ++++++++++++
 src/libunicode/tablegen/multistage_generator.cpp | 10 +++++++---
 src/libunicode/tablegen/ucd_api_generator.cpp    |  6 ++++--
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/libunicode/tablegen/case_norm_generator.cpp b/src/libunicode/tablegen/case_norm_generator.cpp
index 09d5381..076b082 100644
--- a/src/libunicode/tablegen/case_norm_generator.cpp
+++ b/src/libunicode/tablegen/case_norm_generator.cpp
@@ -290,7 +290,7 @@ namespace
 
 void generateCaseNormFile(UcdParser const& parser, std::string const& outputDir)
 {
-    auto out = std::ofstream(outputDir + "/case_normalization_data.h", std::ios::binary);
+    auto out = openOutput(outputDir + "/case_normalization_data.h");
 
     out << licenseHeader;
     out << R"(
@@ -364,6 +364,7 @@ namespace unicode::detail
     out << "// clang-format on\n";
     out << "\n";
     out << "} // namespace unicode::detail\n";
+    out.close();
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/enum_generator.cpp b/src/libunicode/tablegen/enum_generator.cpp
index 86b451a..7dee0d6 100644
--- a/src/libunicode/tablegen/enum_generator.cpp
+++ b/src/libunicode/tablegen/enum_generator.cpp
@@ -234,7 +234,7 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
 
     // ---- ucd_enums.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_enums.h", std::ios::binary);
+        auto out = openOutput(outputDir + "/ucd_enums.h");
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -244,11 +244,12 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumClass(out, def);
         out << "} // namespace unicode\n";
+        out.close();
     }
 
     // ---- ucd_ostream.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_ostream.h", std::ios::binary);
+        auto out = openOutput(outputDir + "/ucd_ostream.h");
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -260,11 +261,12 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         for (auto const& def: enums)
             writeEnumOstream(out, def);
         out << "} // namespace unicode\n";
+        out.close();
     }
 
     // ---- ucd_fmt.h ----
     {
-        auto out = std::ofstream(outputDir + "/ucd_fmt.h", std::ios::binary);
+        auto out = openOutput(outputDir + "/ucd_fmt.h");
         out << licenseHeader;
         out << "#pragma once\n";
         out << "\n";
@@ -274,6 +276,7 @@ void generateEnumFiles(UcdParser const& parser, std::string const& outputDir)
         out << "\n";
         for (auto const& def: enums)
             writeEnumFormatter(out, def);
+        out.close();
     }
 }
 
diff --git a/src/libunicode/tablegen/enum_utils.h b/src/libunicode/tablegen/enum_utils.h
index 77e5789..2275d53 100644
--- a/src/libunicode/tablegen/enum_utils.h
+++ b/src/libunicode/tablegen/enum_utils.h
@@ -15,8 +15,10 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <fstream>
 #include <map>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -40,6 +42,16 @@ constexpr std::string_view licenseHeader = R"(/**
 */
 )";
 
+/// Opens a generated file for writing. Any failure to write it throws; close() it to learn of the last ones.
+inline auto openOutput(std::string const& path, std::ios::openmode mode = std::ios::binary) -> std::ofstream
+{
+    auto out = std::ofstream(path, std::ios::out | mode);
+    if (!out.is_open())
+        throw std::runtime_error("Failed to open file for writing: " + path);
+    out.exceptions(std::ios::badbit | std::ios::failbit);
+    return out;
+}
+
 /// Build name -> enum integer index map for a given enum, using the exact same
 /// member ordering as the generated ucd_enums.h.
 ///
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..d156cba 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -655,9 +655,9 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     auto implPath = outputDir + "/codepoint_properties_data.cpp";
     auto namesPath = outputDir + "/codepoint_properties_names.cpp";
 
-    auto header = std::ofstream(headerPath);
-    auto impl = std::ofstream(implPath);
-    auto namesFile = std::ofstream(namesPath);
+    auto header = openOutput(headerPath, std::ios::out);
+    auto impl = openOutput(implPath, std::ios::out);
+    auto namesFile = openOutput(namesPath, std::ios::out);
 
     // Header
     header << disclaimer;
@@ -727,6 +727,10 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     namesFile << "} // end namespace " << namespaceName << "\n";
 
     header << "\n} // end namespace " << namespaceName << "\n";
+
+    header.close();
+    impl.close();
+    namesFile.close();
 }
 
 } // namespace tablegen
diff --git a/src/libunicode/tablegen/ucd_api_generator.cpp b/src/libunicode/tablegen/ucd_api_generator.cpp
index 7cfd1d2..5b28764 100644
--- a/src/libunicode/tablegen/ucd_api_generator.cpp
+++ b/src/libunicode/tablegen/ucd_api_generator.cpp
@@ -103,8 +103,8 @@ namespace
 
 void generateUcdApiFiles(UcdParser const& parser, std::string const& outputDir)
 {
-    auto header = std::ofstream(outputDir + "/ucd.h", std::ios::binary);
-    auto impl = std::ofstream(outputDir + "/ucd.cpp", std::ios::binary);
+    auto header = openOutput(outputDir + "/ucd.h");
+    auto impl = openOutput(outputDir + "/ucd.cpp");
 
     // ---- File headers ----
     header << licenseHeader;
@@ -614,6 +614,8 @@ namespace unicode
     // ---- File footers ----
     header << "} // namespace unicode\n";
     impl << "} // namespace unicode\n";
+    header.close();
+    impl.close();
 }
 
 } // namespace tablegen
-- 
2.43.0


From 60e8c4e8b90f2c5effa35095443657dcd509f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 38/38] fix: unicode-query fails if it cannot write its output

---
 src/tools/unicode-query.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 6daca31..d60f1a3 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -283,7 +283,9 @@ int showRuns(int argc, char const* argv[])
 //
 //     Analyzes the given input string for common Unicode properties
 //     and prints out each segments with the gathered information.
-int main(int argc, char const* argv[])
+namespace
+{
+int run(int argc, char const* argv[])
 {
     if (argc == 1)
         return printUsage(EXIT_FAILURE);
@@ -309,3 +311,18 @@ int main(int argc, char const* argv[])
 
     return showCodepointProperties(argc - argIndex, argv + argIndex);
 }
+} // namespace
+
+int main(int argc, char const* argv[])
+{
+    auto const exitCode = run(argc, argv);
+
+    cout.flush();
+    if (!cout)
+    {
+        cerr << "Failed to write the output.\n";
+        return EXIT_FAILURE;
+    }
+
+    return exitCode;
+}
-- 
2.43.0

