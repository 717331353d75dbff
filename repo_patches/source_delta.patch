From 7e9fd78a96e6c00257032c3f9ee65e1a177e27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 01/22] fix: dictionary::find skips the unused slot 0

A name equal to the value held by the unused names[0] (K{} in a zeroed
dictionary) was matched at index 0, which is nil, so it was never found and
every bind of it added another entry.
---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..0348602 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -50,8 +50,8 @@ namespace ce
                 if (names[i] == n)
                     return ptr_t(i);
 
-            // linear scan
-            for (size_t i = heap; i < size; ++i)
+            // linear scan (slot 0 is never bound)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 7ccaa976148d2571229ccdc527175edb94272cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 02/22] fix: next_unbiased computes its rejection threshold

0u - n % n is always 0, so nothing was ever rejected and the result had the
same bias as next_ranged.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From f0b9214eaa664833d969a3ab213599514b899cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 03/22] fix: as_string keeps char arrays within their size

A char array passed to a multi argument as_string decayed to char const*, so an
array that is not null terminated was read past its end and written past
measure<char[N]>, overflowing the stack buffer.
---
 lib/h/ce/ce.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..231e899 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1054,6 +1054,9 @@ namespace ce
         }
     }
 
+    // do not let char arrays decay, they have to stay within measure<char[N]>
+    template<size_t N> char* to_text_m(char* text, char const (&from)[N]) { return to_text(text, from); }
+
     template<class...Ts> struct as_string
     {
         char as[measure<Ts...>::value + 1];
-- 
2.43.0


From 7bbe25e776630e3d1b06d729549766f4cb9ed255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 04/22] fix: nameof strips every scope from an enumerator

Enumerators of enums inside a namespace or class kept the inner scopes
("city::b"), so as_enum("b") did not find them.
---
 lib/h/ce/nameof.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..2744bef 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,14 @@ namespace ce
             return 0;
         };
 
+        static constexpr unsigned skip_all(char what, char const text[])
+        {
+            unsigned n = 0;
+            while (unsigned i = skip(what, text + n))
+                n += i;
+            return n;
+        }
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -74,7 +82,7 @@ namespace ce
         template<class T, T N> struct nameof<T, N>
         {
             static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            static constexpr auto _skip = skip_all(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From f4ba23cf3af53e00ef22c051f449dcf9fd8f9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 05/22] fix: in_range_rr_edge requires the projection to be on
 the edge

A point closer than r to the start of a short edge was accepted even when its
projection was past the end of the edge.
---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From 3ffeed8995bb77248983403792dea3c6ac8d45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 06/22] fix: z_query does not wrap at the top of the z order

hi + 0x0ffff overflowed for boxes that reach the last 256x256 cell, so points
in them were missed.
---
 lib/h/ce/zorder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..c339426 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,7 +114,8 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        if (hi < ~uint64_t(0) - 0x0ffff)
+            last = z_lower_bound(data, last, hi + 0x0ffff);
 
         uint64_t spans[32 * 2];
         auto next = &spans[0];
@@ -123,7 +124,7 @@ namespace ce
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > hi && zn - hi > 0x0ffff)
             {
                 // pop
                 if (next <= &spans[0])
-- 
2.43.0


From 9b53045aa71a18d04a59ccd0ec003a1c3c54ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 07/22] fix: intersect no longer loses the low bits of the
 ratio

muldiv dropped the low 16 bits of the denominator and shifted the numerator
out of 64 bits, so lines with small (|cross| < 65536) or large coordinates got
a wrong intersection.  Use the 128 bit product where the compiler has one.
---
 lib/h/ce/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e7cbc48..0c54d5f 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -81,6 +81,7 @@ namespace ce
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
+#ifdef _MSC_VER
             int64_t d16 = d >> 16;
 
             if (d16 == 0)
@@ -90,6 +91,9 @@ namespace ce
 
             //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
             return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+#else
+            return { int32_t(__int128(b.x) * n / d), int32_t(__int128(b.y) * n / d) };
+#endif
         }
 
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int32_t n, int32_t d)
-- 
2.43.0


From 63403fd9867b7425666bbc646421bd224131901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 08/22] fix: bulk::back compiles

reinterpret_cast from nullptr to a pointer type is ill-formed, so any use of
back() was rejected.
---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 231e899..76fdecf 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1367,8 +1367,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 8d9f925acbc2271a21a6fafdc04e850d358d8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 09/22] fix: dictionary::bind checks the slot it is going to
 use

An empty dictionary of one slot passed the size test and then bound slot 1,
past the end of its arrays.
---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index 0348602..4d2b2a0 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,10 +64,10 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                i = size + !size; // add 1 if size == 0 so we don't allocate 0
+                if (i >= N)
                     return ptr_t::nil;
 
-                i = size + !size; // add 1 if size == 0 so we don't allocate 0
                 size = i + 1;
 
                 names[i] = n;
-- 
2.43.0


From fd83240f49646bd288583a725412de6ccca4f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 10/22] fix: as_string writes null text as nil instead of
 reading it

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 76fdecf..162d4f3 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1046,7 +1046,7 @@ namespace ce
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
-            return to_text_s(text, measure<T>::value, from);
+            return from != nullptr ? to_text_s(text, measure<T>::value, from) : to_text(text, nullptr);
         }
         else
         {
-- 
2.43.0


From 21c3ea0fb7eb0ba6b66794d7551e1167c021bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 11/22] fix: as_string terminates the text of a single char
 array

---
 lib/h/ce/ce.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 162d4f3..4a81963 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1068,11 +1068,6 @@ namespace ce
         }
     };
 
-    template<size_t N> struct as_string<char const (&)[N]>
-    {
-        char const (&as)[N];
-    };
-
     template<> struct as_string<char const*>
     {
         char const* as;
@@ -1080,7 +1075,8 @@ namespace ce
 
     template<class...Ts> as_string(Ts const&...)->as_string<Ts const&...>;
 
-    as_string(char const*)->as_string<char const*>;
+    // only a pointer is passed through, a char array is not always terminated
+    template<class T, class = enable_same_t<T, char const*>> as_string(T const&)->as_string<char const*>;
 
     template<class...Ts> bool call_error_hook(char const info[], Ts const*... args)
     {
-- 
2.43.0


From 4b35a3e73c418c2b34325a857b515b3ed05ae871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 12/22] fix: io field names may be followed by a space

---
 lib/h/ce/io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..5f44be2 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -46,6 +46,9 @@ namespace ce
                 while (s[k] > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                while (s[k] != '\0' && s[k] <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From eaa57db6ddb8aa4c0f9eaa84feb132890c364cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 13/22] fix: z_query has room for a span per bit of the key

---
 lib/h/ce/zorder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index c339426..2bd0e08 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -117,7 +117,7 @@ namespace ce
         if (hi < ~uint64_t(0) - 0x0ffff)
             last = z_lower_bound(data, last, hi + 0x0ffff);
 
-        uint64_t spans[32 * 2];
+        uint64_t spans[64 * 2];
         auto next = &spans[0];
 
         while (data < last)
@@ -155,7 +155,7 @@ namespace ce
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[64 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From 604fb39b2c789911b640664d93cabf6ea92a1edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 14/22] fix: get<N> of an aggregate compiles

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4a81963..38e6787 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From 4702694fb7c6d8b4821fea9aad1ec4fd63c4d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 15/22] fix: a face may have two edges on the outer boundary of
 the mesh

---
 lib/h/ce/cdt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..6925be5 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -289,9 +289,9 @@ namespace ce
             CE_ASSERT(f.p1 != f.p2);
             CE_ASSERT(f.p2 != f.p0);
 
-            CE_ASSERT(f.e0 != f.e1);
-            CE_ASSERT(f.e1 != f.e2);
-            CE_ASSERT(f.e2 != f.e0);
+            CE_ASSERT(f.e0 != f.e1 || f.e0 == 0);
+            CE_ASSERT(f.e1 != f.e2 || f.e1 == 0);
+            CE_ASSERT(f.e2 != f.e0 || f.e2 == 0);
 
             CE_ASSERT(es[es[f.e0].e].e == f.e0);
             CE_ASSERT(es[es[f.e1].e].e == f.e1);
-- 
2.43.0


From 69f6ebeb370a52e7d47f2cda7cce01989ec18baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 16/22] fix: a constraint may start at a corner of the mesh

---
 lib/h/ce/cdt.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index 6925be5..60dd867 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -510,6 +510,19 @@ namespace ce
             return e % 4 == 3 ? e & ~3 : e;
         }
 
+        // the edge opposite the same vert in the next face around it
+        // at the outer boundary this continues at the other end
+        size_t next_around(size_t e) const
+        {
+            if (size_t t = es[next_edge(next_edge(e))].e)
+                return next_edge(next_edge(t));
+
+            while (size_t t = es[next_edge(e)].e)
+                e = next_edge(t);
+
+            return e;
+        }
+
         size_t locate_insertion_node(int64_t px, int64_t py, size_t hint) const
         {
 #if 0
@@ -892,8 +905,10 @@ namespace ce
 
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
+                    else if (es[n + 2].e == 0 && ps[1] == q)
+                        return true; // along the outer boundary
                     else
-                        pn = es[n + 2].e;
+                        pn = next_around(n + 0);
                 }
                 else if (ps[1] == 0)
                 {
@@ -913,8 +928,10 @@ namespace ce
 
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
+                    else if (es[n + 0].e == 0 && ps[2] == q)
+                        return true; // along the outer boundary
                     else
-                        pn = es[n + 0].e;
+                        pn = next_around(n + 1);
                 }
                 else
                 {
@@ -936,8 +953,10 @@ namespace ce
 
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
+                    else if (es[n + 1].e == 0 && ps[0] == q)
+                        return true; // along the outer boundary
                     else
-                        pn = es[n + 1].e;
+                        pn = next_around(n + 2);
                 }
             }
         }
-- 
2.43.0


From e1dd177621f739c07d1a48ed8286b52cd41f8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 17/22] fix: constraints leave the edges around them delaunay

---
 lib/h/ce/cdt.h | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index 60dd867..76c6513 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -801,24 +801,29 @@ namespace ce
         void constrain_edge(size_t en)
         {
             es[en].c = es[es[en].e].c = 1;
-#if 1
-            // not sure if this does anything
-            // but the idea is we did a bunch of flips to get an
-            // edge we want to constrain show up and we maybe able to undo
-            // some of those?
+        }
 
-            auto e1 = next_edge(en);
-            auto e2 = next_edge(e1);
+        // flips towards a constraint don't check the edges around them
+        // all of those belong to the faces around the vert we came from
+        void legalize(int64_t px, int64_t py, size_t n)
+        {
+            for (bool again = true; again;)
+            {
+                again = false;
 
-            flip(next_edge(e1));
-            flip(next_edge(e2));
+                n = locate_insertion_node(px, py, n) & ~3;
 
-            e1 = next_edge(es[en].e);
-            e2 = next_edge(e1);
+                // the edge opposite the vert
+                if (vs[es[n].p].x != px || vs[es[n].p].y != py)
+                    n += vs[es[n + 1].p].x != px || vs[es[n + 1].p].y != py ? 2 : 1;
 
-            flip(next_edge(e1));
-            flip(next_edge(e2));
-#endif
+                auto first = n;
+                do
+                {
+                    again = flip(n) || flip(next_edge(next_edge(n)));
+                    n = next_around(n);
+                } while (!again && n != first);
+            }
         }
 
         template<class T>
@@ -844,6 +849,7 @@ namespace ce
             if (r == 0 || r == q)
             {
                 //CE_DEBUG_BREAK();
+                legalize(px, py, hint);
                 return false;
             }
 
@@ -854,6 +860,8 @@ namespace ce
 
             auto rq = insert_edge(px + r.x, py + r.y, px + q.x, py + q.y, hint);
 
+            legalize(px, py, hint);
+
             return pr && rq;
         }
 
@@ -897,6 +905,7 @@ namespace ce
                         {
                             constrain_edge(n + 1);
                             pn = es[n + 1].e;
+                            legalize(px, py, n);
                             px = px + ps[2].x;
                             py = py + ps[2].y;
                         }
@@ -920,6 +929,7 @@ namespace ce
                         {
                             constrain_edge(n + 2);
                             pn = es[n + 2].e;
+                            legalize(px, py, n);
                             px = px + ps[0].x;
                             py = py + ps[0].y;
                         }
@@ -945,6 +955,7 @@ namespace ce
                         {
                             constrain_edge(n + 0);
                             pn = es[n + 0].e;
+                            legalize(px, py, n);
                             px = px + ps[1].x;
                             py = py + ps[1].y;
                         }
-- 
2.43.0


From b82ebeae3c573967ed2c34e59ec7882d0f034769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 18/22] fix: in circle terms of far apart verts overflow a
 signed integer

---
 lib/h/ce/cdt.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index 76c6513..ca91816 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -333,11 +333,12 @@ namespace ce
             auto ca = cx * ay - cy * ax;
             auto ab = ax * by - ay * bx;
 
-            auto aabc = aa * bc;
-            auto bbca = bb * ca;
-            auto ccab = cc * ab;
+            // these can overflow but the sum always fits
+            auto aabc = uint64_t(aa) * uint64_t(bc);
+            auto bbca = uint64_t(bb) * uint64_t(ca);
+            auto ccab = uint64_t(cc) * uint64_t(ab);
 
-            return aabc + bbca + ccab < 0;
+            return int64_t(aabc + bbca + ccab) < 0;
         }
 
         template<bool More>
-- 
2.43.0


From 0bba130d61fd203f0f4110147247e096b9cf5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:13 +0000
Subject: [PATCH 19/22] fix: names of log arguments keep characters outside
 ascii

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 38e6787..d3d9bb0 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1122,7 +1122,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (static_cast<unsigned char>(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1152,7 +1152,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (static_cast<unsigned char>(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From 7256b67f9d50700d07ac0c186f178d9db939d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:13 +0000
Subject: [PATCH 20/22] fix: names of bound fields keep characters outside
 ascii

---
 lib/h/ce/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index 5f44be2..63742cb 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,13 +40,13 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && static_cast<unsigned char>(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (static_cast<unsigned char>(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && static_cast<unsigned char>(s[k]) <= ' ')
                     ++k;
 
                 if (s[k] == ',')
-- 
2.43.0


From 79bd600fee4e819261d299499a8d5353cfdd2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 21/22] fix: a digit separator in a log argument is no quote

---
 lib/h/ce/ce.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d3d9bb0..61512eb 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1114,6 +1114,8 @@ namespace ce
         char text[N]{ };
         char const* data[COUNT + !COUNT]{ };
 
+        static constexpr bool is_word(char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c & 0x80); }
+
         constexpr names(char const* src)
         {
             size_t i = 0;
@@ -1129,6 +1131,7 @@ namespace ce
                 int balance = &name - data + 1 == COUNT ? 1 : 0;
                 char quote = 0;
                 bool escape = false;
+                char token = 0;
                 size_t trim = i;
 
                 // copy until comma (with balanced ()[]{} and not in a string or char) or eos
@@ -1136,8 +1139,16 @@ namespace ce
                 {    
                     if (quote == 0)
                     {
+                        // the first character of the name or number we are in
+                        if (!is_word(*src))
+                            token = *src == '\'' ? token : '\0';
+                        else if (token == '\0')
+                            token = *src;
+
                         if (*src == ',' && (balance == 0 || src[1] == '\0'))
                             break;
+                        else if (*src == '\'' && token >= '0' && token <= '9' && is_word(src[1]))
+                            { } // separates digits
                         else if (*src == '"' || *src == '\'')
                             quote = *src;
                         else if (*src == '(' || *src == '[' || *src == '{')
-- 
2.43.0


From ecac11c1b1734a60b5c069a8a521e2e43c484c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:27 +0000
Subject: [PATCH 22/22] fix: nameof of a 64 bit enumerator value beyond 32 bits
 gave the name of another enumerator

---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 2744bef..67ffbbf 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -97,11 +97,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return static_cast<unsigned long long>(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (static_cast<unsigned long long>(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0

