From 99b17f8f59aad4b8f7c8df3b10d6bc1f64ccf815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 01/22] fix: as_string: pass values to to_text_m by reference,
 so that a character array keeps its length

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..169bc09 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1041,7 +1041,7 @@ namespace ce
     template<> struct measure<long long> { static constexpr size_t value = 20; };          // -9223372036854775808
     template<> struct measure<unsigned long long> { static constexpr size_t value = 20; }; // 18??????????????????
 
-    template<class T> inline char* to_text_m(char* text, T from)
+    template<class T> inline char* to_text_m(char* text, T const& from)
     {
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
-- 
2.43.0


From b88b25495dc51fed698a40dba4643fc844acb7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 02/22] fix: next_unbiased: compute 2^32 mod n, the threshold
 was always zero

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 169bc09..b7c6380 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From 4884eed7707d5304d1e1f83697d5dfed5457f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 03/22] fix: pcg32: rotate by zero without a shift by 32

---
 lib/h/ce/ce.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b7c6380..a46c595 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -792,7 +792,8 @@ namespace ce
             // also it is really annoying that some processors only have ror or rol, but not both, and there is no particular reason for which one they have!
             // I guess they want some programs to be slightly slower on their processors to save 1 op code
             // RANT OFF
-            return b >> a | b << (32 - a);
+            // b << (-a & 31) is the form without the UB, gcc and clang compile it to a rotate
+            return b >> a | b << (-a & 31);
         }
 
         inline pcg32_64_t step(pcg32_64_t g)
-- 
2.43.0


From 3422f17bf5e172982692e3e1497e5525696dabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 04/22] fix: to_text: an array of arrays is a nested list, not
 the address of its first row

---
 lib/h/ce/ce.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index a46c595..e836de5 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -987,6 +987,9 @@ namespace ce
         }
     }
 
+    // arrays of arrays are found by to_text_n only if declared before it
+    template<size_t N, class T> char* to_text(char text[], T const (&values)[N]);
+
     template<class T> char* to_text_n(char text[], size_t n, T const values[])
     {
         text = to_text(text, '[');
-- 
2.43.0


From 7755526d9f5f897bf3d99183f22b358fe5d93ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 05/22] fix: bulk::back: reinterpret_cast from nullptr_t does
 not compile, use static_cast

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index e836de5..3924204 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1368,8 +1368,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From f17eed60c100314f953928df9e6f529888bf933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 06/22] fix: dictionary: find skips the unused entry 0, so that
 a name equal to what it holds is found

---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..d923f18 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -50,8 +50,8 @@ namespace ce
                 if (names[i] == n)
                     return ptr_t(i);
 
-            // linear scan
-            for (size_t i = heap; i < size; ++i)
+            // linear scan, entry 0 is nil
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From fd7a0b48c5dd379ab5f79d83fc6c8dc449704e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 07/22] fix: dictionary: bind does not write past a storage of
 one entry

---
 lib/h/ce/dictionary.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index d923f18..a684c9e 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,10 +64,11 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                i = size + !size; // add 1 if size == 0 so we don't allocate 0
+
+                if (i >= N)
                     return ptr_t::nil;
 
-                i = size + !size; // add 1 if size == 0 so we don't allocate 0
                 size = i + 1;
 
                 names[i] = n;
-- 
2.43.0


From e03360681e761e409475ec0c206e4a42853d591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 08/22] fix: z_query: boxes whose high corner lies in the last
 cell lost their points to a wrapped end

---
 lib/h/ce/zorder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..29b4952 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,7 +114,8 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        if (uint64_t const end = (hi | 0x0ffff) + 1) // 0 when no code lies beyond the last cell
+            last = z_lower_bound(data, last, end);
 
         uint64_t spans[32 * 2];
         auto next = &spans[0];
@@ -123,7 +124,7 @@ namespace ce
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > (hi | 0x0ffff))
             {
                 // pop
                 if (next <= &spans[0])
-- 
2.43.0


From 22ba90a1b1f7817b34c5f8d38cd06d5f8e3d223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 09/22] fix: z_query: room for every level of nested splits

---
 lib/h/ce/zorder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 29b4952..5ce73c7 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -117,7 +117,7 @@ namespace ce
         if (uint64_t const end = (hi | 0x0ffff) + 1) // 0 when no code lies beyond the last cell
             last = z_lower_bound(data, last, end);
 
-        uint64_t spans[32 * 2];
+        uint64_t spans[48 * 2]; // a box splits at most once per bit above its cells
         auto next = &spans[0];
 
         while (data < last)
-- 
2.43.0


From 6c2450916f8a0a1ad35e770419217494d176a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 10/22] fix: in_range_rr_edge: a point past the far end is not
 in range, however near it is

---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From f0e4a82bbf7961579cac9dfa96a38015f8a63650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 11/22] fix: muldiv with 64-bit factors: exact quotient, small
 denominators were dropped

---
 lib/h/ce/math.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e7cbc48..ef6339a 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -81,6 +81,7 @@ namespace ce
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
+#ifdef _MSC_VER
             int64_t d16 = d >> 16;
 
             if (d16 == 0)
@@ -90,6 +91,12 @@ namespace ce
 
             //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
             return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+#else
+            if (d == 0)
+                return b;
+
+            return { int32_t(__int128(b.x) * n / d), int32_t(__int128(b.y) * n / d) };
+#endif
         }
 
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int32_t n, int32_t d)
-- 
2.43.0


From 0340fcb8a17ff415563f5163a8e4e73f4080d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 12/22] fix: log keys keep characters outside ASCII

names compared plain char, so where char is signed every byte of a
multibyte character counted as white space and was dropped at either end
of an argument.
---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 3924204..14f3644 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1127,7 +1127,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (static_cast<uint8_t>(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1157,7 +1157,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (static_cast<uint8_t>(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From 6f13ce67a1837fdfc1c7490af98963e51a0b9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 13/22] fix: member names keep characters outside ASCII

names_t compared plain char, so where char is signed a name ended at the
first byte of a multibyte character.
---
 lib/h/ce/io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..e502695 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,10 +40,10 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && static_cast<uint8_t>(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (static_cast<uint8_t>(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
                 if (s[k] == ',')
-- 
2.43.0


From 73daace6f083c58e1226ad29d74625c0447d3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 14/22] fix: a space before the comma no longer shifts member
 names

names_t looked for the comma right after the name, so with a space in
between every following member lost its name.
---
 lib/h/ce/io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index e502695..c3f5961 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -46,6 +46,9 @@ namespace ce
                 while (static_cast<uint8_t>(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                while (s[k] != '\0' && static_cast<uint8_t>(s[k]) <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From 5513d1c391b8de7d9b52a8db1fba59dd9b523d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 15/22] fix: nameof compares 64-bit enumerations as a whole

The value was truncated to unsigned, so 0x100000001 had the name of 1.
---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..d73be09 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -89,11 +89,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return static_cast<unsigned long long>(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (static_cast<unsigned long long>(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 85e11b6390b489fe245278f21ce7825232c2f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 16/22] fix: nameof drops every enclosing scope of an
 enumerator

Only the first scope was dropped, so an enumerator of an enumeration in a
namespace or class was named with the enumeration and as_enum did not
find it by its identifier.
---
 lib/h/ce/nameof.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index d73be09..e7bc269 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,15 @@ namespace ce
             return 0;
         };
 
+        static constexpr unsigned skip_scope(char const text[])
+        {
+            unsigned item = 0;
+            for (unsigned n = 0; text[n] != 0; ++n)
+                if (text[n] == ':')
+                    item = n + 1;
+            return item;
+        }
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -74,7 +83,7 @@ namespace ce
         template<class T, T N> struct nameof<T, N>
         {
             static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            static constexpr auto _skip = skip_scope(name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From e0f9fdd2172c44377da1e56b69e513ac200f862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 17/22] fix: nameof knows enumerators in an unnamed namespace

Their text starts with "(anonymous namespace)", which was taken for the
cast of a value without an enumerator.
---
 lib/h/ce/nameof.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index e7bc269..10dc9de 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -54,6 +54,15 @@ namespace ce
             return item;
         }
 
+        // a value without an enumerator is written as a cast: "(scope::type)value"
+        static constexpr bool is_cast(char const item[])
+        {
+            for (; *item != 0; ++item)
+                if (*item == ')')
+                    return true;
+            return false;
+        }
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -82,8 +91,8 @@ namespace ce
 
         template<class T, T N> struct nameof<T, N>
         {
-            static constexpr bool is_known = name_item<N>.data[0] != '(';
             static constexpr auto _skip = skip_scope(name_item<N>.data);
+            static constexpr bool is_known = !is_cast(name_item<N>.data + _skip);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From ef47cae1bb0719616a733a0a91fa176eae9a0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 18/22] fix: locate finds nothing outside the outer square,
 however far away the point is

---
 lib/h/ce/cdt.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..a022e02 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -970,6 +970,10 @@ namespace ce
             }
             return 0;
 #else
+            // no triangle holds a point outside the outer square, and it can be too far away to subtract
+            if (px < vs[0].x * m2w32 || px > vs[3].x * m2w32 || py < vs[0].y * m2w32 || py > vs[3].y * m2w32)
+                return 0;
+
             auto e = hint & ~3;
             if (e < 24 || e > size * 8 - 4)
                 e = uint(size * 8 - 4);
-- 
2.43.0


From b01582250a32fc0e96ddcbdbf6f09725caf83521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 19/22] fix: get<N>: name detail::get, the member of crack hid
 it and nothing compiled

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 14f3644..bdc2fca 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From 2f31829e8d7848f4d9f8553fb0fdda273b8cd1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 20/22] fix: measure<T[N]>: the text of an array may be longer
 than 1024 characters and overran as_string

---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index bdc2fca..6dfa77c 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1032,6 +1032,10 @@ namespace ce
     template<class T> struct measure<T const volatile> : measure<T> { };
 
     template<class T> struct measure<T> { static constexpr size_t value = 1024; };
+    template<class T, size_t N> struct measure<T[N]> { static constexpr size_t value = 2 + N * (measure<T>::value + 2); }; // [a, b, ...]
+    template<class T, size_t N> struct measure<T const[N]> : measure<T[N]> { };
+    template<class T, size_t N> struct measure<T volatile[N]> : measure<T[N]> { };
+    template<class T, size_t N> struct measure<T const volatile[N]> : measure<T[N]> { };
     template<size_t N> struct measure<char[N]> { static constexpr size_t value = N; };
     template<> struct measure<char> { static constexpr size_t value = 1; };
     template<> struct measure<signed char> { static constexpr size_t value = 4; };
-- 
2.43.0


From b86348da8efcff1dde3e9eb16a5252726baa6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 21/22] fix: with Microsoft's compiler scaling by a fraction is
 exact, small denominators included

---
 lib/h/ce/math.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index ef6339a..8696a9e 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -82,15 +82,14 @@ namespace ce
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
 #ifdef _MSC_VER
-            int64_t d16 = d >> 16;
-
-            if (d16 == 0)
+            if (d == 0)
                 return b;
 
-            int64_t t = (n << 16) / d16;
+            // divide first, so that the 128 bit quotient of the remainder always fits
+            uint64_t t = uint64_t(n / d);
+            int64_t r = n % d;
 
-            //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
-            return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+            return { int32_t(b.x * t + msvc::xdiv(msvc::xmul(b.x, r), d)), int32_t(b.y * t + msvc::xdiv(msvc::xmul(b.y, r), d)) };
 #else
             if (d == 0)
                 return b;
-- 
2.43.0


From 59a3506eec6d395ff3d1717cd95c454e4ee31229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:00 +0000
Subject: [PATCH 22/22] fix: nameof of a type keeps the words of a name that
 has several

---
 lib/h/ce/nameof.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 10dc9de..caf24c3 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -37,13 +37,18 @@ namespace ce
                     return i;
         }
 
-        static constexpr unsigned skip(char what, char const text[])
+        // some compilers write what kind of type it is before the name
+        static constexpr unsigned skip_kind(char const text[])
         {
-            for (unsigned n = 0; text[n] != 0; ++n)
-                if (text[n] == what && text[n + 1] != what)
-                    return n + 1;
+            char const* kinds[]{ "class ", "struct ", "union ", "enum " };
+            for (auto kind : kinds)
+            {
+                auto n = same(kind, text);
+                if (kind[n] == '\0')
+                    return n;
+            }
             return 0;
-        };
+        }
 
         static constexpr unsigned skip_scope(char const text[])
         {
@@ -85,7 +90,7 @@ namespace ce
         template<class T, T...> struct nameof;
         template<class T> struct nameof<T>
         {
-            static constexpr auto _skip = skip(' ', name_type<T>.data);
+            static constexpr auto _skip = skip_kind(name_type<T>.data);
             static constexpr auto text = const_text<name_type<T>.size - _skip>{ name_type<T>.data + _skip };
         };
 
-- 
2.43.0

