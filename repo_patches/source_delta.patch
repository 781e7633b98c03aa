From 6412ac7724b5124424b231cf170b903f29e0e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 01/37] fix: UTF-8 to UTF-8 transcode_size reported lack of
 space when the size equals the limit

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..cebb5e1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 3928d1640f3e19b537f946d025fd8800d264e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 02/37] fix: UTF-8 to UTF-32 unsafe_transcode_size stopped in
 the middle of a character

---
 include/strf/detail/utf.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index cebb5e1..511f83a 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
-                return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
-            }
             const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            if (detail::not_utf8_continuation(ch)) {
+                if (size >= limit){
+                    return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+                }
+                ++size;
+            }
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From 18dbd68d16b18f17c9743500226b571c4cff4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 03/37] fix: notify each invalid sequence once when transcoding
 is internally resumed

transcode() to a destination object and decode_encode() resume the transcoder
after running out of space in the destination buffer or in the pivot buffer.
An invalid sequence at that position was notified twice.
---
 include/strf/detail/facets/charset.hpp | 50 ++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index d005123..2a32bb3 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -1066,6 +1066,46 @@ struct decode_encode_size_result
     transcode_stop_reason stop_reason;
 };
 
+namespace detail {
+
+// When a transcoder stops for lack of space at an invalid sequence, that
+// sequence has already been notified, and the transcoder notifies it again
+// when it resumes. This class forwards only the first of such notifications.
+class resumable_transcoding_notifier: public strf::transcoding_error_notifier
+{
+public:
+    explicit STRF_HD resumable_transcoding_notifier(strf::transcoding_error_notifier* n) noexcept
+        : notifier_(n)
+    {
+    }
+    STRF_HD void invalid_sequence
+        ( int code_unit_size
+        , const char* charset_name
+        , const void* sequence_ptr
+        , std::ptrdiff_t code_units_count ) override
+    {
+        if (sequence_ptr != last_sequence_ptr_) {
+            last_sequence_ptr_ = sequence_ptr;
+            notifier_->invalid_sequence
+                (code_unit_size, charset_name, sequence_ptr, code_units_count);
+        }
+    }
+    STRF_HD void unsupported_codepoint(const char* charset_name, unsigned codepoint) override
+    {
+        notifier_->unsupported_codepoint(charset_name, codepoint);
+    }
+    STRF_HD strf::transcoding_error_notifier* get() noexcept
+    {
+        return notifier_ ? this : nullptr;
+    }
+
+private:
+    strf::transcoding_error_notifier* notifier_;
+    const void* last_sequence_ptr_ = nullptr;
+};
+
+} // namespace detail
+
 template <typename SrcCharT, typename DstCharT>
 STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     ( strf::transcode_f<SrcCharT, char32_t> to_u32
@@ -1079,10 +1119,11 @@ STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
 {
     using stop_reason = strf::transcode_stop_reason;
     char32_t pivot_buff[16] = {};
+    detail::resumable_transcoding_notifier src_notifier{err_notifier};
     while (true) {
         char32_t* pivot = pivot_buff;
         char32_t* pivot_end = pivot_buff + sizeof(pivot_buff) / sizeof(pivot_buff[0]);
-        const auto src_res = to_u32(src, src_end, pivot, pivot_end, err_notifier, flags);
+        const auto src_res = to_u32(src, src_end, pivot, pivot_end, src_notifier.get(), flags);
         const auto dst_res = from_u32
             (pivot_buff, src_res.dst_ptr, dst, dst_end, err_notifier, flags);
 
@@ -1173,8 +1214,10 @@ STRF_HD strf::decode_encode_size_result<SrcCharT> decode_encode
     std::ptrdiff_t count = 0;
     auto* dst_it = dst.buffer_ptr();
     auto* dst_end = dst.buffer_end();
+    detail::resumable_transcoding_notifier src_notifier{err_notifier};
     while (true) {
-        const auto src_res = to_u32(src, src_end, pivot_buff, pivot_end, err_notifier, flags);
+        const auto src_res = to_u32
+            (src, src_end, pivot_buff, pivot_end, src_notifier.get(), flags);
 
         char32_t* pivot_it = pivot_buff;
         while (true) {
@@ -1565,8 +1608,9 @@ STRF_HD strf::transcode_size_result<SrcCharT> transcode
         return {0, src, stop_reason::insufficient_output_space};
     }
     std::ptrdiff_t count = 0;
+    detail::resumable_transcoding_notifier notifier{err_notifier};
     while (1) {
-        const auto res = func(src, src_end, dst_it, dst_end, err_notifier, flags);
+        const auto res = func(src, src_end, dst_it, dst_end, notifier.get(), flags);
         count += res.dst_ptr - dst_it;
         dst.advance_to(res.dst_ptr);
         if (res.stop_reason != stop_reason::insufficient_output_space) {
-- 
2.43.0


From f0855817b323b8e9eb7f2f2bd53765803429b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 04/37] fix: windows-1254 encoded six Latin-1 letters it does
 not have as other letters

---
 include/strf/detail/single_byte_charsets.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..55b04e7 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2001,6 +2001,12 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x90: return 0x90;
         case 0x9D: return 0x9D;
         case 0x9E: return 0x9E;
+        case 0xD0:
+        case 0xDD:
+        case 0xDE:
+        case 0xF0:
+        case 0xFD:
+        case 0xFE: return 0x100;
         case 0x011E: return 0xD0;
         case 0x011F: return 0xF0;
         case 0x0130: return 0xDD;
-- 
2.43.0


From ed86fee73335928d23c6b39de440c6eba7ec6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 05/37] fix: single-byte charsets: size and transcode
 classified code points around the surrogates, U+FFFD and U+110000 differently

---
 include/strf/detail/single_byte_charsets.hpp | 41 ++++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 55b04e7..b384a96 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -127,6 +127,16 @@ struct sbcs_never_has_invalid_seq_crtp
     }
 };
 
+template <typename CharT>
+constexpr STRF_HD bool sbcs_is_invalid_codepoint(CharT ch, bool strict_surrogates) noexcept
+{
+    static_assert(sizeof(CharT) == 4, "");
+    return detail::cast_u32(ch) >= 0x110000
+        || ( strict_surrogates
+          && 0xD800 <= detail::cast_u32(ch) && detail::cast_u32(ch) <= 0xFFFF
+          && detail::cast_u32(ch) != 0xFFFD );
+}
+
 template <typename T>
 struct sbcs_find_unsupported_codepoint_crtp
 {
@@ -143,14 +153,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::sbcs_is_invalid_codepoint(*it, true)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::sbcs_is_invalid_codepoint(*it, false)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +169,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::sbcs_is_invalid_codepoint(*it, true)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +178,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::sbcs_is_invalid_codepoint(*it, false)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::sbcs_is_invalid_codepoint(*it, true)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +208,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::sbcs_is_invalid_codepoint(*it, false)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +220,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::sbcs_is_invalid_codepoint(*it, true)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +232,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::sbcs_is_invalid_codepoint(*it, false)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +256,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( ! detail::sbcs_is_invalid_codepoint(*it, true)
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (! detail::sbcs_is_invalid_codepoint(*it, false) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +275,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( ! detail::sbcs_is_invalid_codepoint(*it, true)
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +286,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (! detail::sbcs_is_invalid_codepoint(*it, false) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2669,11 +2679,8 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
     for (; src != src_end; ++src, ++dst_it) {
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
-            const bool is_invalid =
-                ( *src >= 0x110000
-               || ( strf::with_strict_surrogate_policy(flags)
-                 && 0xD800 <= *src
-                 && *src <= 0xFFFF));
+            const bool is_invalid = detail::sbcs_is_invalid_codepoint
+                (*src, strf::with_strict_surrogate_policy(flags));
 
             if (!is_invalid) {
                 if (err_notifier) {
-- 
2.43.0


From ea8d934a2546474d89a2f6c1ec769fea59307be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 06/37] fix: notify each unsupported codepoint once when the
 destination is full

---
 include/strf/detail/single_byte_charsets.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index b384a96..2fb2f48 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2683,6 +2683,10 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
                 (*src, strf::with_strict_surrogate_policy(flags));
 
             if (!is_invalid) {
+                STRF_IF_UNLIKELY ( dst_it == dst_end &&
+                                   ! strf::with_stop_on_unsupported_codepoint(flags)) {
+                    return {src, dst_it, reason::insufficient_output_space};
+                }
                 if (err_notifier) {
                     auto codepoint = detail::cast_unsigned(*src);
                     err_notifier->unsupported_codepoint(Impl::name(), codepoint);
@@ -2723,6 +2727,10 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::unsafe_transcode
     for (; src != src_end; ++src, ++dst_it) {
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
+            STRF_IF_UNLIKELY ( dst_it == dst_end &&
+                               ! strf::with_stop_on_unsupported_codepoint(flags)) {
+                return {src, dst_it, reason::insufficient_output_space};
+            }
             if (err_notifier) {
                 auto codepoint = detail::cast_unsigned(*src);
                 err_notifier->unsupported_codepoint(Impl::name(), codepoint);
-- 
2.43.0


From fa200275767046fa495333f26e4d3f526b77b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 07/37] fix: windows-1258 encoded U+009F as the byte of U+0178

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 2fb2f48..a5b9c0a 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2415,7 +2415,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 48931eeb01aa3dad4ac436bb86113f0312dd8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 08/37] fix: decode_unit of UTF-8 and UTF-32 returned invalid
 units instead of U+FFFD

---
 include/strf/detail/utf.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 511f83a..811f96b 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,8 +962,9 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
-            return static_cast<char32_t>(ch);
+        const auto u32ch = static_cast<char32_t>(detail::cast_u8(ch));
+        STRF_IF_LIKELY (u32ch < 0x80)
+            return u32ch;
         return 0xFFFD;
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
@@ -1273,7 +1274,10 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        return static_cast<char32_t>(ch);
+        const auto u32ch = static_cast<char32_t>(ch);
+        STRF_IF_LIKELY (u32ch < 0x110000)
+            return u32ch;
+        return 0xFFFD;
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
     {
-- 
2.43.0


From 6b7f008c4f4ed54ccbe523c337ffe35855783653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 09/37] fix: comparing a width_t with a 16-bit integer
 overflowed when they are far apart

---
 include/strf/width_t.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..dbf65b5 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -413,15 +413,13 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return compare(detail::tag_i32(), strf::detail::cast_i32(x));
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
-        using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return compare(detail::tag_i32(), strf::detail::cast_i32(x));
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From 10830d259b219567a2b2f64fbbf2de159a2a27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 10/37] fix: division of a negative width_t lost the sign

---
 include/strf/width_t.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index dbf65b5..c29729e 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,8 +407,7 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
+        const std::int64_t tmp = cast_i64(cast_u64(cast_i64(value_)) << 16) / other.value_;
         value_ = detail::cast_i32(cast_i64(tmp));
         return *this;
     }
-- 
2.43.0


From 9450dd7818ca2e69533629310848a8908e069d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 11/37] fix: sat_sub of a width_t and a huge 64-bit integer
 wrapped around

---
 include/strf/width_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index c29729e..f938ad3 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,9 +298,9 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000) {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
             auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
-- 
2.43.0


From f1215a6488a6a2fef63df29d94dbcf8ce91a5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 12/37] fix: streambuf_writer sent more data after a failed
 write

---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From 5a1a42a8c57331b76dc58dec46a99e02db6a4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 13/37] fix: writing to a truncated array or C string lost its
 end pointer

---
 include/strf/destination.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..93c7d3f 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -381,10 +381,12 @@ private:
             *ptr = *data;
         }
 #endif
-        it_ = this->buffer_end();
+        if (this->good()) {
+            it_ = this->buffer_end();
+            this->set_good(false);
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
-        this->set_good(false);
     }
 
     CharT* it_ = nullptr;
@@ -516,10 +518,12 @@ private:
             *ptr = *data;
         }
 #endif
-        it_ = this->buffer_end();
+        if (this->good()) {
+            it_ = this->buffer_end();
+            this->set_good(false);
+        }
         this->set_buffer_ptr(garbage_buff<CharT>());
         this->set_buffer_end(garbage_buff_end<CharT>());
-        this->set_good(false);
     }
 
     CharT* it_ = nullptr;
-- 
2.43.0


From 017b5405354ba689218d4b91d42c334639df8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 14/37] fix: decimal integers with a sign option wrote past the
 end of the buffer

The operator precedence made the printer ensure room for one character only.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..e6440ab 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From f6b41692d18a0c04af0513a4452a7c0fdef4a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 15/37] fix: punctuated binary integers wrote past the end of
 the buffer

---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From fe9989be10c4b66acc1457a1323eeef594cd2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 16/37] fix: base(n) discarded the precision, pad0, sign and
 showbase format

---
 include/strf/detail/printable_types/int.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index e6440ab..1c0fb6f 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -779,9 +779,8 @@ public:
         , int_format_specifier_full_dynamic >
     base(int b) const
     {
-        int_format_full_dynamic data;
+        int_format_full_dynamic data = data_;
         data.base = b;
-        data.punctuate = Punctuate;
         return { *static_cast<const T*>(this)
                , strf::tag<int_format_specifier_full_dynamic>{}
                , data };
-- 
2.43.0


From a3d2d91925a4600cbb17d0802cbe785e253542bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 17/37] fix: separators that the charset can not represent were
 counted in the width

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 1c0fb6f..98524c5 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1787,6 +1787,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From 2471dbc0756989cb918fdec6a4839238af6e013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 18/37] fix: no_grouping ignored its decimal point

---
 include/strf/detail/facets/numpunct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..ecdae5e 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
-    constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From 20348d99e498b61a36470ccc1d23868a480d309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 19/37] fix: an integer formatted with base(n) could not be
 aligned

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 98524c5..54d8a49 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -878,7 +878,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From 6f5bf95274dc6ab564be839bce900adcc0f36308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 20/37] fix: a locale grouping that ends with CHAR_MAX disabled
 all grouping

---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index ecdae5e..483daea 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -410,7 +410,7 @@ STRF_FUNC_IMPL STRF_HD digits_grouping::digits_grouping(const char* str) noexcep
             *this = creator.finish();
             break;
         }
-        if (0 != (ch & 0x80)) {
+        if (0 != (ch & 0x80) || ch == CHAR_MAX) {
             *this = creator.finish_no_more_sep();
             break;
         }
-- 
2.43.0


From c9be248fbbbbb856871b87ee7cebf864c6234f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 21/37] fix: UTF-32 transcode_size missed invalid code points
 in a signed wchar_t

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 811f96b..0e60a87 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3016,13 +3016,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_unsigned(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_unsigned(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3031,7 +3031,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_unsigned(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3040,7 +3040,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_unsigned(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From e1b85b2a18d4a153392b73f3e27c0b82487589b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 22/37] fix: strings with a runtime charset could only be
 printed to char destinations

---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From fb7291f690fede40730a54f2e586aaa84540124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 23/37] fix: std_width_calc::str_width_and_pos returned the
 limit instead of the width of the prefix, and could cut a grapheme cluster

---
 include/strf/detail/facets/width_calculator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..31678c6 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -220,7 +220,7 @@ STRF_FUNC_IMPL STRF_HD std_width_calc_func_return std_width_calc_func
             return {0, 0, nullptr};
         }
         if (ch_width > width) {
-            return {0, 0, str -1};
+            return {width, 0, str -1};
         }
         width = 0;
         goto next_codepoint; // because there might be more codepoints in this grapheme cluster
@@ -509,13 +509,14 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From d14672fd864fd515ff92f2786881be0053511003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 24/37] fix: width_as_u32len asserted on strings of 32768 or
 more code points

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 31678c6..1f86e11 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From 799ded37fa49760b00e63330ec1770dd3d8f8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 25/37] fix: the widths of several arguments overflowed when
 their sum exceeded width_max, so that a join printed extra fill

---
 include/strf/detail/premeasurements.hpp |  4 ++--
 include/strf/detail/tr_printer.hpp      | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..918068f 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_ = strf::sat_add(width_, w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return w < remaining_width();
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..cc348c1 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,8 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_ = strf::sat_add
+                ( width_, index < array_size_ ? width_array_[index] : strf::width_t(1) );
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +170,8 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_ = strf::sat_add
+                ( width_, wcalc_.str_width(charset_, limit_ - width_, begin, end) );
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +221,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_ = strf::sat_add(width_, width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_ = strf::sat_add(width_, strf::width_t(1));
         }
         return {};
     }
@@ -230,7 +232,8 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        width_ = strf::sat_add
+            ( width_, wcalc_.str_width(charset_, limit_ - width_, begin, end) );
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From ccb55d01f6bc4eebc15b39db508584a90f678e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 26/37] fix: tr with reserve_calc used the unsized destination
 type (to_string.reserve_calc().tr(...) did not compile)

---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From 4071cab136a9ded5c312813656a94b625c91d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 27/37] fix: the measured width of an aligned join was wrong
 when its limit was large

---
 include/strf/detail/printable_types/join.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..bebbf86 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -257,8 +257,7 @@ struct join_printing
             ( sub_pre.remaining_width_greater_than(wdiff)
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
-        pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+        pre->add_width(strf::sat_add(sub_pre.accumulated_width(), pf.fillcount_));
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From 0840a8d0f5af22aafdc5bde54e1c80fc87e2812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 28/37] fix: fmt_separated_range of an initializer_list did not
 compile (narrowing conversion)

---
 include/strf/detail/printable_types/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/range.hpp b/include/strf/detail/printable_types/range.hpp
index 5dc2ebd..21dbfb9 100644
--- a/include/strf/detail/printable_types/range.hpp
+++ b/include/strf/detail/printable_types/range.hpp
@@ -818,8 +818,8 @@ template <typename T, typename CharT>
 inline STRF_HD auto fmt_separated_range(std::initializer_list<T> r, const CharT* sep) noexcept
     -> strf::sep_range_with_fmt<const T*, CharT>
 {
-    std::size_t sep_len = strf::detail::str_ssize<CharT>(sep);
-    strf::separated_range_p<const T*, CharT> rr
+    const auto sep_len = strf::detail::str_ssize<CharT>(sep);
+    const strf::separated_range_p<const T*, CharT> rr
     { r.begin(), r.end(), sep, sep_len };
     return strf::sep_range_with_fmt<const T*, CharT>{rr};
 }
-- 
2.43.0


From 1cba5bd70423719c74c0015dd2e4a2af2ac4689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 29/37] fix: with() after a list that holds constrained facets
 did not compile

---
 include/strf/facets_pack.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/strf/facets_pack.hpp b/include/strf/facets_pack.hpp
index f1eb9da..6253e4e 100644
--- a/include/strf/facets_pack.hpp
+++ b/include/strf/facets_pack.hpp
@@ -327,6 +327,7 @@ template < typename Rank
          , typename FPE >
 class fpe_wrapper<Rank, strf::constrained_fpe<Filter, FPE>>
 {
+    using cfpe_type_ = strf::constrained_fpe<Filter, FPE>;
 
     template <typename Category, typename Tag>
     static constexpr STRF_HD bool has_facet_() noexcept
@@ -344,7 +345,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( const strf::constrained_fpe<Filter, FPE>& cfpe )
         noexcept(noexcept(F(std::declval<const F&>())))
-        : fpe_(cfpe.get())
+        : cfpe_(cfpe)
     {
     }
 
@@ -354,7 +355,7 @@ public:
     constexpr STRF_HD explicit fpe_wrapper
         ( strf::constrained_fpe<Filter, FPE>&& cfpe )
         noexcept(noexcept(F(std::declval<F>())))
-        : fpe_(std::move(cfpe).get())
+        : cfpe_(std::move(cfpe))
     {
     }
 
@@ -366,24 +367,24 @@ public:
         , strf::tag<Category>
         , std::integral_constant<bool, has_facet_<Category, Tag>()> ) const
     {
-        return strf::detail::do_get_facet<Category, Tag>(fpe_);
+        return strf::detail::do_get_facet<Category, Tag>(cfpe_.get());
     }
 
-    constexpr STRF_HD const FPE& do_get_element
+    constexpr STRF_HD const cfpe_type_& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> ) const
     {
-        return fpe_;
+        return cfpe_;
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD FPE& do_get_element
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD cfpe_type_& do_get_element
         ( std::integral_constant<std::size_t, Rank::number> )
     {
-        return fpe_;
+        return cfpe_;
     }
 
 private:
 
-    FPE fpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
+    cfpe_type_ cfpe_; // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 };
 
 template <typename Rank, typename FPE>
-- 
2.43.0


From 7f129724f37c2afd768b4d795312f72faa880f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:22 +0000
Subject: [PATCH 30/37] fix: facets packs and constrained facets given as
 lvalues to tr() were taken for the tr-string

---
 include/strf/detail/separate_args_and_print.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/separate_args_and_print.hpp b/include/strf/detail/separate_args_and_print.hpp
index 1df9fe2..61a8c06 100644
--- a/include/strf/detail/separate_args_and_print.hpp
+++ b/include/strf/detail/separate_args_and_print.hpp
@@ -107,7 +107,8 @@ struct first_is_fpe<>
 template <typename Arg0, typename... OtherArgs>
 struct first_is_fpe<Arg0, OtherArgs...>
 {
-    static constexpr bool value = strf::detail::is_fpe<Arg0>::value;
+    static constexpr bool value = strf::detail::is_fpe
+        < strf::detail::remove_cvref_t<Arg0> >::value;
 };
 
 template <bool FirstIsFpe, typename... Args>
-- 
2.43.0


From 12267a628b774085d3e98ba82f34355c003d052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 31/37] fix: any negative floating-point precision counts as
 not set, not only -1

---
 include/strf/detail/printable_types/float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..af68514 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2093,7 +2093,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
     }
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2101,7 +2101,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2110,7 +2110,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2176,7 +2176,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
     switch (ffmt.notation) {
         case strf::float_notation::general:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_general
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2184,7 +2184,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
                 ( data, grp, ffmt.precision, rounded_fmt_width, afmt.alignment, ffmt.showpoint );
 
         case strf::float_notation::scientific:
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_scientific
                     ( data, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
@@ -2193,7 +2193,7 @@ STRF_FUNC_IMPL STRF_HD strf::detail::float_init_result init_float_printer_data
 
         default:
             STRF_ASSERT(ffmt.notation == strf::float_notation::fixed);
-            if (ffmt.precision == (detail::chars_count_t)-1) {
+            if (detail::precision_not_set(ffmt.precision)) {
                 return init_double_data_without_precision_fixed
                     ( data, grp, rounded_fmt_width, afmt.alignment, ffmt.showpoint);
             }
-- 
2.43.0


From 86b313043d7f187e0da122b36877849bd1065600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 32/37] fix: the sign was left out of the size of a general
 float whose rounding carries through all digits

---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index af68514..f1902e8 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1652,7 +1652,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1661,7 +1661,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From c1638320a70a00da6aebb643f6cf0e6f3dc02dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 33/37] fix: fixed floats rounded up to one more integral digit
 missed or did not count the new separator

---
 include/strf/detail/printable_types/float.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index f1902e8..8e939aa 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1921,6 +1921,13 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        const int new_int_digcount = 1 + data.e10;
+                        if (grouping.any_separator(new_int_digcount)) {
+                            const auto sep_count = static_cast<detail::chars_count_t>
+                                (grouping.separators_count(new_int_digcount));
+                            data.sub_chars_count += sep_count - data.sep_count;
+                            data.sep_count = sep_count;
+                        }
                     }
                 }
             }
-- 
2.43.0


From b5a1fb263a8e7c1faa7d9cf6444c993c63061915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 34/37] fix: the thousands separator of an integral float was
 not encoded in single-byte charsets

---
 include/strf/detail/printable_types/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 8e939aa..dbf5d2a 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2381,9 +2381,14 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            CharT sep;
+            if (thousands_sep_ < 0x80) {
+                sep = static_cast<CharT>(thousands_sep_);
+            } else {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
-                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10, sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0


From 7c6511b665d864e22ef79ce1470a21b2005d5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 35/37] fix: hexadecimal floats lost the carry into the first
 digit when rounded, and .p(0) did not round half to even

---
 include/strf/detail/printable_types/float.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index dbf5d2a..33c1e0a 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1586,8 +1586,6 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
         data.showpoint = data.extra_zeros || fdata.showpoint;
         data.sub_chars_count += 1 + data.showpoint;
     } else {
-        data.exponent_digcount = strf::detail::exponent_hex_digcount(data.exponent);
-        data.sub_chars_count += data.exponent_digcount;
         if (data.mantissa == 0){
             data.mantissa_digcount = 0;
             data.extra_zeros = detail::precision_is_set(fdata.precision) ? fdata.precision : 0;
@@ -1609,15 +1607,28 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
                 auto d = 1ULL << s;
                 auto mask = d - 1;
                 auto mantissa_low = data.mantissa & mask;
+                constexpr std::uint64_t hidden_bit = 1ULL << 52;
+                const auto significand = data.mantissa | (data.subnormal ? 0 : hidden_bit);
                 if ( mantissa_low > (d >> 1)
-                 || (mantissa_low == (d >> 1) && (data.mantissa & d))) {
+                 || (mantissa_low == (d >> 1) && (significand & d))) {
                     data.mantissa += d;
+                    if (data.mantissa & hidden_bit) {
+                        // carried into the digit before the point
+                        data.mantissa &= hidden_bit - 1;
+                        if (data.subnormal) {
+                            data.subnormal = false;
+                        } else {
+                            ++ data.exponent;
+                        }
+                    }
                 }
                 data.mantissa_digcount = fdata.precision;
                 data.showpoint = fdata.precision || fdata.showpoint;
                 data.sub_chars_count += data.showpoint + data.mantissa_digcount;
             }
         }
+        data.exponent_digcount = strf::detail::exponent_hex_digcount(data.exponent);
+        data.sub_chars_count += data.exponent_digcount;
     }
     const detail::chars_count_t content_width =
         (detail::max)(data.sub_chars_count + data.extra_zeros, data.pad0width);
-- 
2.43.0


From 7cbddbd7b03fcd7818a33b252034e7d933c7d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:16 +0000
Subject: [PATCH 36/37] fix: separators were counted for a general float that
 carries into the scientific notation

---
 include/strf/detail/printable_types/float.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 33c1e0a..e6236aa 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1650,6 +1650,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
     }
     if (data.e10 < -4 || precision <= data.e10) {
         data.form = detail::float_form::sci;
+        data.sep_count = 0;
         data.sub_chars_count = data.showsign + 5 + (data.e10 > 99 || data.e10 < -99);
         if (alt_form) {
             data.showpoint = true;
-- 
2.43.0


From a2478ecef9083145fc2ef1ac09d087a73f14b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 37/37] fix: append(str).reserve(n) called std::terminate when
 the allocation threw

---
 include/strf/to_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/to_string.hpp b/include/strf/to_string.hpp
index d769397..92c9218 100644
--- a/include/strf/to_string.hpp
+++ b/include/strf/to_string.hpp
@@ -289,7 +289,7 @@ public:
     {
         return *str_;
     }
-    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const noexcept
+    std::basic_string<CharT, Traits, Allocator>& create(std::size_t size) const
     {
         if (size > 0) {
             str_->reserve(str_->size() + size);
-- 
2.43.0

