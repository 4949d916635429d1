From f11777a824f85884e3723041369dc85fbc4e0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:45 +0000
Subject: [PATCH 01/46] fix: case-insensitive prefix match accepts non-letters
 (0x10 for "0")

---
 src/scn/impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..8bc1353 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2314,14 +2314,18 @@ auto read_matching_string_classic(Range range, std::string_view str)
     }
 }
 
-// Ripped from fast_float
+// Expects `b` to not contain uppercase ASCII letters
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
     unsigned char running_diff{0};
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        // Only letters have an uppercase counterpart:
+        // '0' (0x30) must not compare equal with DLE (0x10)
+        const bool is_upper = a[i] >= 'A' && a[i] <= 'Z';
+        running_diff |= static_cast<unsigned char>(
+            (is_upper ? a[i] ^ 0x20 : a[i]) ^ b[i]);
     }
-    return running_diff == 0 || running_diff == 32;
+    return running_diff == 0;
 }
 
 template <typename Range>
-- 
2.43.0


From 1d37636a7661d7107d910e5b718ca3e535777b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:45 +0000
Subject: [PATCH 02/46] fix: 64-bit integer overflow missed when the value
 wraps around more than once

---
 src/scn/impl.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..0bf5485 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1051,6 +1051,7 @@ SCN_FORCE_INLINE constexpr size_t min_safe_u64(int base)
 template <typename T>
 constexpr bool check_integer_overflow(uint64_t val,
                                       size_t digits_count,
+                                      int first_digit,
                                       int base,
                                       bool is_negative)
 {
@@ -1058,8 +1059,14 @@ constexpr bool check_integer_overflow(uint64_t val,
     if (digits_count > max_digits) {
         return true;
     }
-    if (digits_count == max_digits && val < min_safe_u64(base)) {
-        return true;
+    if (digits_count == max_digits) {
+        // val has wrapped around at most once, unless the most significant
+        // digit alone is enough to overflow
+        if (val < min_safe_u64(base) ||
+            static_cast<uint64_t>(first_digit) >
+                std::numeric_limits<uint64_t>::max() / min_safe_u64(base)) {
+            return true;
+        }
     }
     if constexpr (!std::is_same_v<T, uint64_t>) {
         if (val > static_cast<uint64_t>(std::numeric_limits<T>::max()) +
@@ -1098,7 +1105,9 @@ auto parse_decimal_integer_fast(std::string_view input,
 
     auto digits_count = static_cast<size_t>(ptr - input.data());
     if (SCN_UNLIKELY(
-            check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
+            check_integer_overflow<T>(u64val, digits_count,
+                                      char_to_int(input.front()), 10,
+                                      is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1130,8 +1139,9 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
     }
 
     auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
-                                               is_negative))) {
+    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count,
+                                               char_to_int(input.front()),
+                                               base, is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1232,7 +1242,8 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     {
         auto digits_count = static_cast<size_t>(p - source.data());
         SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count, 10,
+        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count,
+                                             char_to_int(source.front()), 10,
                                              negative_sign) == false);
     }
 
-- 
2.43.0


From fe6d856b482bfdd304d4128e50c3d95b8774eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:39 +0000
Subject: [PATCH 03/46] fix: overlong UTF-8, encoded surrogates and
 out-of-range code points accepted as valid text

---
 include/scn/scan.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..5fe1825 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4111,6 +4111,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         char32_t cp{};
         cp |= (static_cast<char32_t>(input[0]) & 0x1f) << 6;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 0;
+        if (cp < 0x80) {
+            // Overlong encoding
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4129,6 +4134,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[0]) & 0x0f) << 12;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 0;
+        if (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff)) {
+            // Overlong encoding, or an encoded surrogate
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4153,6 +4163,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 12;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[3]) & 0x3f) << 0;
+        if (cp < 0x10000 || cp >= invalid_code_point) {
+            // Overlong encoding, or beyond the last code point
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4280,7 +4295,8 @@ inline constexpr char32_t decode_code_point_exhaustive(
     else {
         SCN_EXPECT(input.size() == 1);
         auto cp = static_cast<char32_t>(input.front());
-        if (SCN_UNLIKELY(cp >= invalid_code_point)) {
+        if (SCN_UNLIKELY(cp >= invalid_code_point ||
+                         (cp >= 0xd800 && cp <= 0xdfff))) {
             return invalid_code_point;
         }
         return cp;
-- 
2.43.0


From 8a9b085d8845852b199e8e0840c15198c02f5a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:39 +0000
Subject: [PATCH 04/46] fix: ASCII part of a character set range that ends past
 0x7e never matched

---
 include/scn/scan.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 5fe1825..c13511a 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7093,16 +7093,12 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
+        // The ASCII part of the range, if any
+        for (auto v = begin_value; v < end_value && v < 128; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
         }
-        else {
+        if (end_value > 128) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From 7f22239349686deff49f05480ff88b33c9e1ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:39 +0000
Subject: [PATCH 05/46] fix: integer presentations of char and wchar_t
 discarded the scanned value

---
 src/scn/impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 8bc1353..88560c9 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5711,7 +5711,7 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        value = static_cast<char>(tmp_value);
         return ret;
     }
 };
@@ -5749,7 +5749,7 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        value = static_cast<wchar_t>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From cbd1de795e606dae48fc9caadf04c324688a220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:57 +0000
Subject: [PATCH 06/46] fix: scanning a code point from ill-formed UTF-8 aborts
 or yields garbage

---
 src/scn/impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 88560c9..39d837e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5624,9 +5624,13 @@ public:
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        cp = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(cp >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
         return result.iterator;
     }
 };
-- 
2.43.0


From d10362d933bd105d5de89e539b1018f97b1ec4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:21 +0000
Subject: [PATCH 07/46] fix: documented {:c} for char and wchar_t rejected as
 an invalid format string

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index c13511a..ad120fc 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7932,8 +7932,8 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type > presentation_type::int_hex &&
+        specs.type != presentation_type::character) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
-- 
2.43.0


From 0e2a0471560d565944627f44a6653123227d1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 08/46] fix: reading a code point at the end of input trips an
 internal assertion

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 39d837e..d4f108f 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5619,6 +5619,9 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
-- 
2.43.0


From 05d6ca08b985a0a87084e8caa00ca62ad488582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 09/46] fix: scan_int_exhaustive_valid rejects valid input with
 leading zeroes in an assertion

---
 src/scn/impl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 0bf5485..6d4ea25 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1240,9 +1240,11 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     SCN_EXPECT(p == end);
 
     {
-        auto digits_count = static_cast<size_t>(p - source.data());
-        SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count,
+        // leading zeroes don't count towards overflow
+        while (source.size() > 1 && source.front() == '0') {
+            source.remove_prefix(1);
+        }
+        SCN_EXPECT(check_integer_overflow<T>(u64val, source.size(),
                                              char_to_int(source.front()), 10,
                                              negative_sign) == false);
     }
-- 
2.43.0


From 013230de4bc19bbf140e9dccada22f1453f41e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:05 +0000
Subject: [PATCH 10/46] fix: values split across segments of a non-contiguous
 source are truncated

---
 src/scn/impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d4f108f..f6fefa9 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5928,7 +5928,8 @@ struct default_arg_reader {
         }
         else if constexpr (!detail::is_type_disabled<T>) {
             auto rd = make_reader<T, char_type>();
-            if (!is_segment_contiguous(range)) {
+            if (!is_segment_contiguous(range) ||
+                !is_entire_source_contiguous(range)) {
                 return impl(rd, range, value);
             }
             auto crange = get_as_contiguous(range);
@@ -6247,7 +6248,8 @@ struct arg_reader {
             auto rd = make_reader<T, char_type>();
             SCN_TRY_DISCARD(rd.check_specs(specs));
 
-            if (!is_segment_contiguous(range) || specs.precision != 0 ||
+            if (!is_segment_contiguous(range) ||
+                !is_entire_source_contiguous(range) || specs.precision != 0 ||
                 specs.width != 0) {
                 return impl(rd, range, value);
             }
-- 
2.43.0


From ce0f334ed4c6c281b1f6b29362f6b843790de568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 11/46] fix: ill-formed text skipped as if it were whitespace
 in non-contiguous sources

---
 src/scn/impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index f6fefa9..f3819d3 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2161,12 +2161,13 @@ auto read_until_code_point(Range range, function_ref<bool(char32_t)> pred)
     while (it != range.end()) {
         const auto val =
             read_code_point_into(ranges::subrange{it, range.end()});
+        auto cp = detail::invalid_code_point;
         if (SCN_LIKELY(val.is_valid())) {
-            const auto cp = detail::decode_code_point_exhaustive(
+            cp = detail::decode_code_point_exhaustive(
                 std::basic_string_view<detail::char_t<Range>>{val.codepoint});
-            if (pred(cp)) {
-                return it;
-            }
+        }
+        if (pred(cp)) {
+            return it;
         }
         it = val.iterator;
     }
-- 
2.43.0


From 1d2f0aa7c24a005c8537dd3a24930b9eb59dce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:34 +0000
Subject: [PATCH 12/46] fix: whitespace code points split between segments of a
 non-contiguous source not recognised

---
 src/scn/impl.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index f3819d3..9d75df0 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2182,6 +2182,19 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// A code point may be split between two segments of a non-contiguous source
+inline std::string_view drop_incomplete_last_code_point(std::string_view seg)
+{
+    for (size_t n = 1; n <= seg.size() && n < 4; ++n) {
+        const auto len = detail::code_point_length_by_starting_code_unit(
+            seg[seg.size() - n]);
+        if (len != 0) {
+            return len > n ? seg.substr(0, seg.size() - n) : seg;
+        }
+    }
+    return seg;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2197,7 +2210,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = drop_incomplete_last_code_point(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2226,7 +2240,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = drop_incomplete_last_code_point(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
-- 
2.43.0


From f6f2344901de632b8d12ab727f9a09064252c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 13/46] fix: scanning a FILE that delivers nothing trips an
 internal assertion

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 9d75df0..8281360 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1205,8 +1205,12 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        // Nothing may have been read at all, with no get area to advance in
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        if (n != 0) {
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From 4bd825766eb2476eab18fd879925c812c4e44bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 14/46] fix: an error in a field before the last is reported as
 an invalid format string

---
 include/scn/scan.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ad120fc..cf6d3bd 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7806,7 +7806,9 @@ constexpr scan_expected<void> parse_format_string(
     Handler&& handler)
 {
     parse_format_string_impl<IsConstexpr>(format, handler);
-    handler.check_args_exhausted();
+    if (handler.get_error()) {
+        handler.check_args_exhausted();
+    }
     return handler.get_error();
 }
 
-- 
2.43.0


From 8cb151b76e2b7498efd4287d141b6ed8bf0fe5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 15/46] fix: bookkeeping of 64 or more arguments accesses
 memory out of bounds

---
 src/scn/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6d4ea25..0ca46a6 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1422,8 +1422,8 @@ private:
 struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
-        if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+        if (SCN_UNLIKELY(args_count > 64)) {
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1441,7 +1441,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (args_count <= 64) {
             return;
         }
 
@@ -1455,7 +1455,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From 5f04dfda0948fb8daf3fbe3e9089d23d6f6f54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 16/46] fix: literals with non-ASCII characters in a narrow
 format string never match

---
 src/scn/impl.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 0ca46a6..bba4dba 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1610,7 +1610,7 @@ struct format_handler : format_handler_base {
 
     void on_literal_text(const char_type* begin, const char_type* end)
     {
-        for (; begin != end; ++begin) {
+        while (begin != end) {
             auto it = get_ctx().begin();
             if (impl::is_range_eof(it, get_ctx().end())) {
                 SCN_UNLIKELY_ATTR
@@ -1618,14 +1618,15 @@ struct format_handler : format_handler_base {
                     {scan_error::invalid_literal, "Unexpected end of source"});
             }
 
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
+            const auto [after_space_it, cp, is_space] =
+                impl::is_first_char_space(
                     detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
+            if (cp == detail::invalid_code_point) {
                 SCN_UNLIKELY_ATTR
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
             }
-            else if (is_space) {
+            if (is_space) {
                 // Skip all whitespace in input
                 get_ctx().advance_to(
                     impl::read_while_classic_space(get_ctx().range()));
@@ -1634,17 +1635,25 @@ struct format_handler : format_handler_base {
                     detail::make_string_view_from_pointers(
                         detail::to_address(after_space_it),
                         detail::to_address(end)));
-                // (-1 because of the for loop ++begin)
-                begin = detail::to_address(begin_it) - 1;
+                begin = detail::to_address(begin_it);
                 continue;
             }
 
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            // Match all code units of this code point
+            const auto cp_end = detail::to_address(after_space_it);
+            for (; begin != cp_end; ++begin, (void)++it) {
+                if (impl::is_range_eof(it, get_ctx().end())) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected end of source"});
+                }
+                if (*it != *begin) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected literal character in source"});
+                }
             }
-            get_ctx().advance_to(ranges::next(it));
+            get_ctx().advance_to(it);
         }
     }
 
-- 
2.43.0


From 2d1195b4f3345c0fd7367fd56f94dbe247d435c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 17/46] fix: whitespace in a format string fails to match the
 end of input

---
 src/scn/impl.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index bba4dba..20d8264 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1612,11 +1612,6 @@ struct format_handler : format_handler_base {
     {
         while (begin != end) {
             auto it = get_ctx().begin();
-            if (impl::is_range_eof(it, get_ctx().end())) {
-                SCN_UNLIKELY_ATTR
-                return on_error(
-                    {scan_error::invalid_literal, "Unexpected end of source"});
-            }
 
             const auto [after_space_it, cp, is_space] =
                 impl::is_first_char_space(
-- 
2.43.0


From 8efb848bff36503807af27b713b310bff55ad8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:59 +0000
Subject: [PATCH 18/46] fix: discard<bool>, discard<char32_t> and
 discard<void*> fail to link

---
 include/scn/scan.h | 3 +++
 src/scn/impl.cpp   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index cf6d3bd..1a07427 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9200,6 +9200,9 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 #define SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_CTX(Context)                   \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(char, Context)                \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(wchar_t, Context)             \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(char32_t, Context)            \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(bool, Context)                \
+    SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(void*, Context)               \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(signed char, Context)         \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(signed char, Context)         \
     SCN_DECLARE_EXTERN_SCANNER_SCAN_FOR_TYPE(short, Context)               \
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 20d8264..4f8261d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -257,6 +257,9 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 
 #define SCN_DEFINE_SCANNER_SCAN_FOR_CTX(Context)                    \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(Context::char_type, Context)   \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char32_t, Context)             \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(bool, Context)                 \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(void*, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(signed char, Context)          \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(short, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(int, Context)                  \
@@ -280,6 +283,7 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
     internal_skip_classic_whitespace(Context::range_type, bool);
 
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(scan_context)
+SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(wchar_t, scan_context)
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(wscan_context)
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From a2f158e99833130d2316f33ac6d261b35ff54a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 19/46] fix: scanning from the range of a context re-reads or
 loses characters of a non-contiguous source

---
 include/scn/scan.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1a07427..cd9724f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5144,8 +5144,11 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        // If `starting_pos` is in the putback buffer of `other`,
+        // its current view is still to be read
+        m_fill_needs_to_propagate =
+            starting_pos >=
+            static_cast<std::ptrdiff_t>(other.putback_buffer().size());
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5161,10 +5164,18 @@ public:
         SCN_EXPECT(m_starting_pos >= 0);
 
         if (m_fill_needs_to_propagate) {
-            auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
+            const auto ret = m_other->fill();
+            const auto& putback = m_other->putback_buffer();
+            const auto start = static_cast<std::size_t>(m_starting_pos);
+            if (start <= putback.size()) {
+                this->m_putback_buffer = putback.substr(start);
+                this->m_current_view = m_other->current_view();
+            }
+            else {
+                this->m_putback_buffer.clear();
+                this->m_current_view =
+                    m_other->current_view().substr(start - putback.size());
+            }
             return ret;
         }
 
-- 
2.43.0


From cefb3bb608d82fbcc30680a9782eafc0fb0a43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:49 +0000
Subject: [PATCH 20/46] fix: fill characters above U+00FF in a wide format
 string are truncated

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index cd9724f..67d928a 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6943,6 +6943,7 @@ public:
             m_data[0] = static_cast<char>(static_cast<unsigned>(s.front()));
             m_data[1] =
                 static_cast<char>(static_cast<unsigned>(s.front()) >> 8);
+            m_size = static_cast<unsigned char>(s.size() * sizeof(CharT));
             if (s.size() == 1) {
                 return;
             }
@@ -6955,6 +6956,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = static_cast<unsigned char>(sizeof(CharT));
         }
     }
 
@@ -6975,7 +6977,8 @@ public:
     template <typename CharT>
     std::basic_string_view<CharT> get_code_units() const
     {
-        return {reinterpret_cast<const CharT*>(m_data), m_size};
+        return {reinterpret_cast<const CharT*>(m_data),
+                m_size / sizeof(CharT)};
     }
 
 private:
-- 
2.43.0


From 6e81f7794ecc67d9bfde1cdefe5241acf994942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 21/46] fix: the documented presentation type 'O' is rejected
 as invalid

---
 include/scn/scan.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 67d928a..746768c 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7240,6 +7240,7 @@ constexpr presentation_type parse_presentation_type(CharT type)
         case 'u':
             return presentation_type::int_unsigned_decimal;
         case 'o':
+        case 'O':
             return presentation_type::int_octal;
         case 'x':
         case 'X':
-- 
2.43.0


From 78c255cbede5645e3d1836a5b4cf071d1c8c02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:48 +0000
Subject: [PATCH 22/46] fix: a '.' without a precision is accepted in a format
 string

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 746768c..170d5d2 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7404,6 +7404,10 @@ constexpr const CharT* parse_precision(const CharT* begin,
             return begin;
         }
     }
+    else {
+        handler.on_error("Missing field precision");
+        return begin;
+    }
     return begin;
 }
 
-- 
2.43.0


From d3cef8ac3e2f4476c88a4dd19272d917a2567eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:24 +0000
Subject: [PATCH 23/46] fix: '}' ending an empty specification is taken for a
 fill character

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 170d5d2..3ea60af 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7349,7 +7349,7 @@ constexpr const CharT* parse_align(const CharT* begin,
             handler.on_error("Invalid fill character '{' in format string");
             return begin;
         }
-        if (potential_fill[0] == '[') {
+        if (potential_fill[0] == '[' || potential_fill[0] == '}') {
             return begin_before_fill;
         }
     }
-- 
2.43.0


From 635a0ff3ce5b7adc8eb9ef22c3b8b92f39e94d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:51 +0000
Subject: [PATCH 24/46] fix: mixing automatic and manual argument indices is
 accepted in runtime format strings

---
 src/scn/impl.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 4f8261d..06bdece 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1658,14 +1658,24 @@ struct format_handler : format_handler_base {
 
     constexpr std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_parse_ctx_error();
+        return id;
     }
     constexpr std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_parse_ctx_error();
         return id;
     }
 
+    constexpr void check_parse_ctx_error()
+    {
+        if (auto err = parse_ctx.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
+        }
+    }
+
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
     {
-- 
2.43.0


From 42ddc7b35ed3e1dc5759cc2e0aef46e31a71050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:34 +0000
Subject: [PATCH 25/46] fix: hexadecimal floats without a prefix are rejected
 when they start with a letter

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 06bdece..e0f1a5f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -858,7 +858,7 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
                 "Invalid floating-point digit");
         }
     }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
-- 
2.43.0


From ff9c136644cb94eea89a41052698709815a56eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:48 +0000
Subject: [PATCH 26/46] fix: floating-point values without an integral part
 (.5) are rejected

---
 src/scn/impl.cpp | 21 ++++++++++++++-------
 src/scn/impl.h   | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e0f1a5f..6f79353 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -433,7 +433,10 @@ protected:
                                                   int c_errno,
                                                   T value) const
     {
-        if (is_float_zero(value) && chars_read == 0) {
+        // "0x" is not a part of the source if hex_without_prefix
+        const std::ptrdiff_t prefix_len =
+            m_kind == float_reader_base::float_kind::hex_without_prefix ? 2 : 0;
+        if (is_float_zero(value) && chars_read <= prefix_len) {
             SCN_UNLIKELY_ATTR
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value,
@@ -851,17 +854,21 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
     }
 
     SCN_EXPECT(!data.input.view().empty());
-    if (data.kind == float_reader_base::float_kind::hex_without_prefix) {
-        if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 16)) {
+    // The integral part may be empty: the conversion rejects a lone '.'
+    if (data.input.view().front() != CharT{'.'}) {
+        if (data.kind == float_reader_base::float_kind::hex_without_prefix) {
+            if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 16)) {
+                return detail::unexpected_scan_error(
+                    scan_error::invalid_scanned_value,
+                    "Invalid floating-point digit");
+            }
+        }
+        else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value,
                 "Invalid floating-point digit");
         }
     }
-    else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
-        return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
-                                             "Invalid floating-point digit");
-    }
 
 #if !SCN_DISABLE_FAST_FLOAT
     if constexpr (std::is_same_v<T, long double>) {
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 8281360..2ce1735 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3961,9 +3961,13 @@ private:
         std::ptrdiff_t digits_count = 0;
         if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
             SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
+            // The integral part may be empty, if there's a fractional part
+            if (!read_matching_code_unit(ranges::subrange{it, range.end()},
+                                         m_locale_options.decimal_point)) {
+                return r.transform_error(map_parse_error_to_scan_error(
+                    scan_error::invalid_scanned_value,
+                    "Invalid hexadecimal floating-point value"));
+            }
         }
         else {
             digits_count += ranges::distance(it, *r);
@@ -4005,9 +4009,13 @@ private:
 
         if (auto r = read_dec_digits(ranges::subrange{it, range.end()}, true);
             SCN_UNLIKELY(!r)) {
-            return r.transform_error(
-                map_parse_error_to_scan_error(scan_error::invalid_scanned_value,
-                                              "Invalid floating-point value"));
+            // The integral part may be empty, if there's a fractional part
+            if (!read_matching_code_unit(ranges::subrange{it, range.end()},
+                                         m_locale_options.decimal_point)) {
+                return r.transform_error(
+                    map_parse_error_to_scan_error(scan_error::invalid_scanned_value,
+                                                  "Invalid floating-point value"));
+            }
         }
         else {
             digits_count += ranges::distance(it, *r);
-- 
2.43.0


From 6dec6c8f7d0fd50fe388d2c18c1ca4f40fe6feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:48 +0000
Subject: [PATCH 27/46] fix: a zero followed by an 'x' is rejected as a float
 when the source is not contiguous

---
 src/scn/impl.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2ce1735..aafa2a3 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4086,17 +4086,16 @@ private:
         if (allowed_hex && !allowed_nonhex) {
             // only hex allowed:
             // prefix "0x" allowed, not required
-            auto it = range.begin();
-
             if (auto r = read_hex_prefix(range)) {
                 m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto rr = read_hex(ranges::subrange{*r, range.end()})) {
+                    return *rr;
+                }
+                // "0x" not followed by digits: just a zero
             }
 
-            return read_hex(ranges::subrange{it, range.end()});
+            m_kind = float_kind::hex_without_prefix;
+            return read_hex(range);
         }
         if (!allowed_hex && allowed_nonhex) {
             // only nonhex allowed:
@@ -4110,7 +4109,10 @@ private:
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
             m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto rr = read_hex(ranges::subrange{*r, range.end()})) {
+                return *rr;
+            }
+            // "0x" not followed by digits: just a zero
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From deef8ae2e6b193fcaf06126f640f2391dd43e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:14 +0000
Subject: [PATCH 28/46] fix: the max_size of a container is ignored when
 scanning a range

---
 include/scn/ranges.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..b988c25 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -210,7 +210,9 @@ void add_element_to_range(Range& r, Element&& elem)
 template <typename Range, typename Enable = void>
 struct has_max_size : std::false_type {};
 template <typename Range>
-struct has_max_size<Range, decltype(SCN_DECLVAL(const Range&).max_size())>
+struct has_max_size<
+    Range,
+    std::void_t<decltype(SCN_DECLVAL(const Range&).max_size())>>
     : std::true_type {};
 
 template <typename Range, typename DiffT = ranges::range_difference_t<Range>>
-- 
2.43.0


From 5a288653cf53a7152057bb2cc18534ef3a0f0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 29/46] fix: input ending inside a range bracket or separator
 of several characters is read past its end

---
 include/scn/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index b988c25..2fb6397 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -153,6 +153,9 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == ranges::end(source))) {
+            return unexpected_scan_error(scan_error::end_of_input, "EOF");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From 042c0196190ce73c03659c6c29e4cd80c291a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 30/46] fix: text not matching a chrono format is reported as
 an invalid format string

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6f79353..c707827 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2755,7 +2755,8 @@ public:
                 return set_error({scan_error::end_of_input, "EOF"});
             }
             if (*beg != *m_begin) {
-                return on_error("Invalid literal character");
+                return set_error({scan_error::invalid_literal,
+                                  "Invalid literal character"});
             }
             ++beg;
             ++m_begin;
-- 
2.43.0


From 1bc8d51d4fc8d129dcd55918edc67f4826cea112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 31/46] fix: %u takes Monday for Sunday and so on

---
 src/scn/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c707827..9455f0a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2983,17 +2983,18 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
+        // 1 (Monday) to 7 (Sunday) -> 0 (Sunday) to 6 (Saturday)
         auto adjust_wday = [](int d) {
             if (d == 0) {
-                return 6;
+                return -1;
             }
-            return d - 1;
+            return d == 7 ? 0 : d;
         };
 
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
-- 
2.43.0


From 1fdddc2d7c804b2ed7fc9748263475d4240b4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 32/46] fix: days of the year above 7 are rejected for
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9455f0a..c478962 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2481,7 +2481,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From 05933fcef7e8b6e589e9bf321b422aa5900c8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 33/46] fix: %C and %y are read as zero for datetime_components

---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c478962..9cbe45b 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2446,6 +2446,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + c * 100;
         }
+        st.century_value = static_cast<unsigned char>(c);
         st.set_century(h);
     }
     template <typename Handler>
@@ -2460,6 +2461,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + y;
         }
+        st.short_year_value = static_cast<unsigned char>(y);
         st.set_short_year(h);
     }
     template <typename Handler>
-- 
2.43.0


From fdc820c5cf9f5f8e7f89d1a9976983ff099d4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 34/46] fix: an invalid timezone name leads to undefined
 behavior

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9cbe45b..a83882f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3194,11 +3194,9 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
         m_begin = res->begin();
     }
 
-- 
2.43.0


From 4849ba493304509528cb16f31b8d87c3ef8404d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 35/46] fix: the character after a non-ASCII one is skipped in
 chrono format strings

---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..5960b6a 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -432,8 +432,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-                    continue;
                 }
+                continue;
             }
             ++p;
             continue;
-- 
2.43.0


From dbdadfc72553134fd0ca93d1a250c900997bc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 36/46] fix: %c is always rejected

---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index a83882f..e8682ca 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3225,6 +3225,8 @@ public:
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
         on_weekday_name();
+        // %c has both a weekday and a day of the month
+        m_st.wday_set = 0;
         on_whitespace();
         on_month_name();
         on_whitespace();
-- 
2.43.0


From de202b2e80c1e106429b0993c2a1e4f6d9cc195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 37/46] fix: weekday, day of the month and day of the year are
 accepted together in chrono formats

---
 include/scn/chrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 5960b6a..42480d1 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -826,8 +826,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
-- 
2.43.0


From db73996eea52876eb7c8e8f768b4a5bf6c1a73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 38/46] fix: control characters are taken for the dots of a.m.
 and p.m.

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e8682ca..8d22011 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3474,7 +3474,8 @@ private:
                 const auto cmp = static_cast<unsigned>(
                     ch ^ options[i].first[chars_consumed]);
                 if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                    (cmp != 0 &&
+                     (cmp != 32 || options[i].first[chars_consumed] == '.'))) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 3fe4b6b83225f2a0ed941a6f6cd9b596627f970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:03 +0000
Subject: [PATCH 39/46] fix: subseconds rounding to a whole second trip an
 assertion

---
 src/scn/impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 8d22011..779444b 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3111,7 +3111,11 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        // A long run of nines rounds to 1.0
+        setter::set_subsec(
+            *this, m_tm, m_st,
+            (std::min)(dbl_res->value(),
+                       1.0 - std::numeric_limits<double>::epsilon() / 2));
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From cb9119c5ff005ededd3311f31cf528ea218294b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:17 +0000
Subject: [PATCH 40/46] fix: chrono component types accept format strings that
 do not set them

---
 include/scn/chrono.h | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 42480d1..ee3f5ec 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1231,6 +1231,7 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::mon>::value) {
             on_error("Months not supported with this type");
         }
+        st.set_mon(*this);
     }
     constexpr void on_dec_month(numeric_system = numeric_system::standard)
     {
@@ -1549,20 +1550,19 @@ struct scanner<datetime_components, CharT>
 
 namespace detail {
 
-template <typename CharT>
+// T: the type being scanned, through datetime_components
+template <typename CharT, typename T = datetime_components>
 struct chrono_component_scanner
     : protected chrono_datetime_scanner<CharT, datetime_components> {
-private:
-    using base = chrono_datetime_scanner<CharT, datetime_components>;
+    using chrono_datetime_scanner<CharT, datetime_components>::scan;
 
-public:
     template <typename ParseCtx>
     constexpr typename ParseCtx::iterator parse(ParseCtx& pctx)
     {
         if (pctx.begin() == pctx.end() || *pctx.begin() == CharT{'}'}) {
             pctx.on_error("Default format not supported for this type");
         }
-        return base::parse(pctx);
+        return detail::chrono_parse_impl<T, CharT>(pctx, this->m_fmt_str);
     }
 };
 
@@ -1570,13 +1570,13 @@ public:
 
 template <typename CharT>
 struct scanner<weekday, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, weekday> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(weekday& wd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, weekday>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1587,12 +1587,13 @@ struct scanner<weekday, CharT>
 };
 
 template <typename CharT>
-struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<day, CharT>
+    : public detail::chrono_component_scanner<CharT, day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(day& d, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1603,12 +1604,13 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<month, CharT>
+    : public detail::chrono_component_scanner<CharT, month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month& m, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1619,12 +1621,13 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<year, CharT>
+    : public detail::chrono_component_scanner<CharT, year> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year& y, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1636,13 +1639,13 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
 
 template <typename CharT>
 struct scanner<month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month_day& md,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month_day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1656,13 +1659,13 @@ struct scanner<month_day, CharT>
 
 template <typename CharT>
 struct scanner<year_month, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month& ym,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year_month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1676,13 +1679,15 @@ struct scanner<year_month, CharT>
 
 template <typename CharT>
 struct scanner<year_month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month_day& ymd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r =
+            detail::chrono_component_scanner<CharT, year_month_day>::scan(dt,
+                                                                          ctx);
         if (!r) {
             return unexpected(r.error());
         }
-- 
2.43.0


From fabf67db2809790d584199809533b58af4530501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 41/46] fix: non-ASCII whitespace is taken literally in wide
 chrono format strings

---
 include/scn/chrono.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index ee3f5ec..4013d28 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -414,8 +414,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                 handler.on_error("Invalid literal character");
                 return p;
             }
-            if (cp_len > 1) {
-                // Multi code unit code point,
+            if (cp_len > 1 || sizeof(CharT) > 1) {
+                // Multi code unit or wide code point,
                 // possible space
                 auto cp_start_p = p;
                 CharT buffer[4] = {};
-- 
2.43.0


From 2b7987f133bd994cc3eaf500dfd512c17b6c997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:26 +0000
Subject: [PATCH 42/46] fix: time points out of range overflow instead of being
 rejected

---
 include/scn/chrono.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 4013d28..502e91b 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -353,15 +353,22 @@ std::optional<Duration> time_since_unix_epoch(const datetime_components& dt)
     }
 
     auto tm = dt.to_tm();
-    // TODO: overflow checks
     auto time = std::chrono::seconds{std::mktime(&tm)};
     if constexpr (Duration::period::type::den > std::intmax_t{1}) {
+        // time and subsec need to be representable as Duration
+        constexpr auto max = std::chrono::duration_cast<std::chrono::seconds>(
+                                 (Duration::max)()) -
+                             std::chrono::seconds{1};
+        if (time > max || time < -max) {
+            return std::nullopt;
+        }
         // Duration more precise than seconds (seconds is std::ratio<1, 1>)
         if (dt.subsec) {
             auto subsec_in_ns =
                 std::chrono::nanoseconds{static_cast<std::int64_t>(
                     *dt.subsec * static_cast<double>(std::nano::den))};
-            return std::chrono::duration_cast<Duration>(time + subsec_in_ns);
+            return std::chrono::duration_cast<Duration>(time) +
+                   std::chrono::duration_cast<Duration>(subsec_in_ns);
         }
     }
     // Duration is seconds or larger, or subsec is not set
-- 
2.43.0


From 8697b638ec064f5c6148a3887bfb19d92773ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:17 +0000
Subject: [PATCH 43/46] fix: NUL is taken for a thousands separator in
 localized integers

---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index aafa2a3..b79c2c2 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3467,7 +3467,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != 0 &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From 10a49fce42a88840fbd55687850c3740711c017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:17 +0000
Subject: [PATCH 44/46] fix: the decimal point is dropped when the thousands
 separator is a '.'

---
 src/scn/impl.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index b79c2c2..69bcd2a 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4128,6 +4128,12 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+        if (m_locale_options.thousands_sep != 0) {
+            remove_thousands_separators(str);
+        }
+
+        // Only after the thousands separators are gone:
+        // the separator may itself be a '.'
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4135,11 +4141,10 @@ private:
                 }
             }
         }
+    }
 
-        if (m_locale_options.thousands_sep == 0) {
-            return;
-        }
-
+    void remove_thousands_separators(std::basic_string<CharT>& str)
+    {
         auto first =
             std::find(str.begin(), str.end(), m_locale_options.thousands_sep);
         if (first == str.end()) {
-- 
2.43.0


From f0d5f5a7b8863298bb2f84e2dc551162ebc67f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:34 +0000
Subject: [PATCH 45/46] fix: putting a character back into the stream of an
 istream scanner aborts or misplaces the position

---
 include/scn/istream.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 3fd86d1..77889d6 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -72,7 +72,10 @@ public:
     using int_type = typename base::int_type;
 
     explicit basic_range_streambuf(range_type range)
-        : m_range(range), m_begin(ranges::begin(m_range)), m_begin_prev(m_begin)
+        : m_range(range),
+          m_begin(ranges::begin(m_range)),
+          m_begin_prev(m_begin),
+          m_last_extracted(m_begin)
     {
     }
 
@@ -114,6 +117,8 @@ private:
         auto ret = underflow();
         if (ret != traits_type::eof()) {
             m_ch = traits_type::eof();
+            m_last_extracted = m_begin_prev;
+            m_can_put_back = true;
         }
         return ret;
     }
@@ -125,23 +130,28 @@ private:
 
     int_type pbackfail(int_type c) override
     {
-        SCN_EXPECT(traits_type::eq_int_type(c, traits_type::eof()));
-        SCN_EXPECT(!m_has_put_back);
-        m_has_put_back = true;
-
-        m_begin = m_begin_prev;
-
-        if (m_begin == ranges::end(m_range)) {
+        // Only the character extracted last can be put back
+        if (!m_can_put_back) {
             return traits_type::eof();
         }
-        return traits_type::to_int_type(0);
+        const auto last = traits_type::to_int_type(*m_last_extracted);
+        if (!traits_type::eq_int_type(c, traits_type::eof()) &&
+            !traits_type::eq_int_type(c, last)) {
+            return traits_type::eof();
+        }
+
+        m_begin = m_last_extracted;
+        m_ch = traits_type::eof();
+        m_can_put_back = false;
+        return traits_type::not_eof(last);
     }
 
     range_type m_range;
     iterator m_begin;
     iterator m_begin_prev;
+    iterator m_last_extracted;
     int_type m_ch{traits_type::eof()};
-    bool m_has_put_back{false};
+    bool m_can_put_back{false};
 };
 
 using range_streambuf = basic_range_streambuf<scan_context::range_type>;
-- 
2.43.0


From d6fd707c4abd2509468e651839d72cbda9da68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:35 +0000
Subject: [PATCH 46/46] fix: the locale is not passed on to a custom scanner
 when the format string is {}

---
 src/scn/impl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 779444b..df1d5a4 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1787,7 +1787,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(source, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(source, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     auto handler = format_handler<true, CharT>{
@@ -1807,7 +1808,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     if (buffer.is_contiguous()) {
-- 
2.43.0

