From b95e1b18ee06a9d732d5871eddd63132c6099d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 1/5] fix: is_already_nfc disagreed with normalize

The quick test ignored composition exclusions and primary composites that
recompose differently with the marks following them (U+0958, e-acute plus
ogonek), and the Hangul LV+T condition was inverted in compose() as well, so
an LVT syllable swallowed a following trailing jamo while an LV syllable did
not compose with it.
---
 include/ada/idna/normalization.h |  2 +-
 src/normalization.cpp            | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/ada/idna/normalization.h b/include/ada/idna/normalization.h
index b8f4a68..2513b98 100644
--- a/include/ada/idna/normalization.h
+++ b/include/ada/idna/normalization.h
@@ -9,7 +9,7 @@ namespace ada::idna {
 // Returns true if `input` is already in Unicode Normalization Form C.
 // Requires that internal tables have been loaded (call ensure via normalize
 // or map first, or this returns false if tables are unavailable).
-[[nodiscard]] bool is_already_nfc(std::u32string_view input) noexcept;
+[[nodiscard]] bool is_already_nfc(std::u32string_view input);
 
 // Normalize the characters according to IDNA (Unicode Normalization Form C).
 // Returns false if the internal Unicode tables could not be loaded; in that
diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..8b60b84 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -168,7 +168,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -219,7 +219,9 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
-bool is_already_nfc(std::u32string_view input) noexcept {
+void compose(std::u32string& input);
+
+bool is_already_nfc(std::u32string_view input) {
   if (input.empty()) {
     return true;
   }
@@ -227,11 +229,17 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     return false;
   }
   // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
+  //    Longer decompositions may be composition exclusions (e.g. U+0958) or
+  //    may recompose differently with the marks that follow them.
+  bool needs_full_check{false};
   for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+    const size_t decomposition_length = canonical_decomp_length(c);
+    if (decomposition_length == 1) {
       return false;
     }
+    if (decomposition_length > 1) {
+      needs_full_check = true;
+    }
   }
   // 2) Combining marks already in canonical order.
   uint8_t prev_ccc = 0;
@@ -242,6 +250,12 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     }
     prev_ccc = ccc;
   }
+  if (needs_full_check) {
+    std::u32string normalized(input);
+    decompose_nfc(normalized);
+    compose(normalized);
+    return normalized == input;
+  }
   // 3) No pairwise composition would apply (including Hangul L+V / LV+T).
   return !would_compose(input);
 }
@@ -274,7 +288,7 @@ void compose(std::u32string& input) {
       }
     } else if (input[input_count] >= hangul_sbase &&
                input[input_count] < hangul_sbase + hangul_scount) {
-      if ((input[input_count] - hangul_sbase) % hangul_tcount &&
+      if ((input[input_count] - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
-- 
2.43.0


From 83f956ca911a4308d639fb3dcf8af0a035c401fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 2/5] fix: punycode decoder accepted a leading delimiter

RFC 3492 consumes the delimiter only when basic code points precede it, so
"-zca" is not Punycode: accepting it gave a label two encodings and made
to_unicode("xn---zca") decode.
---
 src/punycode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..91b79e0 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -45,6 +45,10 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // RFC 3492: the delimiter is only present after basic code points.
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
@@ -114,6 +118,10 @@ bool verify_punycode(std::string_view input) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // RFC 3492: the delimiter is only present after basic code points.
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
-- 
2.43.0


From 6a1dc46c0f4bee4868fbd6bbae7d366e14c9960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 3/5] fix: bound code length repeats in the inflater

A repeat code at the end of a dynamic block's code length section wrote past
lens[]; RFC 1951 forbids repeats that exceed HLIT + HDIST lengths.
---
 src/raw_inflate.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..26afc5e 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -211,17 +211,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             if (rep == UINT32_MAX) return 0;
             rep += 3;
             if (i == 0) return 0;
+            if (rep > n - i) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 8c63acff74ab1dfce340c9488dca855cab55af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 4/5] fix: check every joiner and the Bidi rule after a good
 joiner

is_label_valid returned as soon as the first ZWJ/ZWNJ was acceptable, so a bad
joiner later in the label, and every Bidi violation of a label with a joiner,
went unnoticed.
---
 src/validity.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..4d3703e 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -189,7 +189,7 @@ bool is_label_valid(const std::u32string_view label) {
     if (c == 0x200c) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       if ((i == 0) || (i + 1 >= label.size())) {
@@ -206,14 +206,16 @@ bool is_label_valid(const std::u32string_view label) {
       };
       std::u32string_view before = label.substr(0, i);
       std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
+      if ((std::find_if(before.begin(), before.end(), is_l_or_d) ==
+           before.end()) ||
+          (std::find_if(after.begin(), after.end(), is_r_or_d) ==
+           after.end())) {
+        return false;
+      }
     } else if (c == 0x200d) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       return false;
-- 
2.43.0


From c96174ac0e2cbce495d2cd5ad324fa92a6ebbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:13 +0000
Subject: [PATCH 5/5] fix: add the viramas of Unicode 15 to 17 to the joiner
 check

---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 4d3703e..1677c94 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -129,12 +129,13 @@ bool is_label_valid(const std::u32string_view label) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE, 0x113CF,
+      0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839,
+      0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44,
+      0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F};
   constexpr static uint32_t R[] = {
       0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
       0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-- 
2.43.0

