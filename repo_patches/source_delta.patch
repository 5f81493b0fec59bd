From 054cfab66e1b773e8eb3d0ca5e5040d428ef0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 01/30] fix: image_from_file: accept complete ASCII (P1/P3)
 images and reject truncated ones

The pixel loop left the cursor on the last digit, so every complete ASCII
image was rejected, while a file with missing pixels was accepted and gave
an image with uninitialised pixels.
---
 src/ppocr/image/image_from_file.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..3ca5546 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -259,21 +259,17 @@ Image image_from_file(const char * filename, unsigned luminance)
     // ascii data (pnm and pbm)
     else if (header.type == '3' || header.type == '1') {
         std::size_t compunt_counter = 0;
-        for (; p < end; ++p) {
+        for (; p < end && compunt_counter != img_size; ++p) {
             if (*p == ' ') {
                 // ignored
             }
             else if (*p == '0') {
                 *output++ = '-';
-                if (++compunt_counter == img_size) {
-                    break;
-                }
+                ++compunt_counter;
             }
             else if (*p == '1') {
                 *output++ = 'x';
-                if (++compunt_counter == img_size) {
-                    break;
-                }
+                ++compunt_counter;
             }
             else if (*p == '\n') {
                 // ignored
@@ -287,7 +283,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From 497c35381dc1fde42bcbfd484f14fffbf55353ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 02/30] fix: image_from_file: accept the smallest valid file (8
 bytes)

A 1x1 P1 or P4 image is 8 bytes long: the header check asked for 9.
---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 3ca5546..800125a 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -125,7 +125,7 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            if (end - p < 8) {
                 return false;
             }
 
-- 
2.43.0


From d804ede01d9f102a80eea62402dc47828c8afcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 03/30] fix: image_from_file: no 32-bit overflow in the size of
 a P4 row

With a width of 2^32-7 or more, the expected length wrapped to 0 and the
decoder read past the end of the file buffer.
---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 800125a..443537d 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -239,7 +239,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (std::size_t(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 86c9182f2b411ee6e3c4548d490c50d0182eb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 04/30] fix: make_box_character: do not drop ink in the last
 column of the image

The scan stopped one column early: a character touching the right border
lost its last column, and one that is only there was not found at all.
---
 src/ppocr/box_char/make_box_character.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..687f770 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,8 +57,11 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
+    while (w < bnd.width()) {
         ++w;
+        if (w == bnd.width()) {
+            break;
+        }
         if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
-- 
2.43.0


From 0c2eeb5f43fc552a736d37b19f9a800f5eb6a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 05/30] fix: proportionality_zone: no division by zero when
 both shares are 0

A zone smaller than 1% of the border is stored as 0; comparing two glyphs
that both have one killed the process (SIGFPE).
---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..effa1d2 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return (a || b) ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From f262004869ef216bca0aff14ea8b8d93fdc1ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 06/30] fix: Dictionary: ignore empty words

A blank line in a words file read past the end of an empty sequence when
the trie was built.
---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From b295516abdab7be5d28aa910687ab25a125067f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 07/30] fix: WordDisambiguouser: read the whole candidate in
 last position

A candidate of several characters was accepted or rejected on its first
character only when it was the last one of the word.
---
 src/ppocr/spell/word_disambiguouser.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..be3a358 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -61,24 +61,22 @@ private:
         if (pos != rng.end() && pos->get() == c) {
             auto next_first = first;
             ++next_first;
-            if (next_first == last) {
-                if (pos->is_terminal()) {
+            if (*++it) {
+                if (!pos->empty() && disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
                     set_c(output, c);
                     return true;
                 }
             }
-            else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
+            else if (next_first == last) {
+                if (pos->is_terminal()) {
                     set_c(output, c);
                     return true;
                 }
             }
+            else if (!pos->empty() && disambiguous_impl(pos->childrens(), next_first, last, output)) {
+                set_c(output, c);
+                return true;
+            }
         }
         return false;
     }
-- 
2.43.0


From 9caaf9c18a8902e9ab92f8d58d14fd7fc57a573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 08/30] fix: ocr2::Glyphs: keep room for the final zero of a
 word

The zero of a word whose length is a multiple of 4 was written over the
size of the next word (lost when that is stored), or past the buffer.
---
 src/ppocr/ocr2/glyphs.cpp | 4 ++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..1c11a4f 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2; // size, characters, final zero
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From 6119192856a47703db19a72a15f47e103997cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 09/30] fix: ocr2::Glyphs::word_index_of: compare whole words

Only the length of the searched word was compared: 'a' found 'ab', and a
longer search read past the stored word.
---
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..a85a5f4 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -67,7 +67,7 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto r = s.compare({this->get_word_(i).data(), this->get_word_(i).size()});
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From 82c558d2603cd24f5591eda48560327052cf1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 10/30] fix: ocr2: index the identifiers of views by glyph

They were stored in sorted order but read with the index of the glyph, so
that glyphs with unrelated words were merged and good candidates lost.
---
 src/ppocr/ocr2/views_index_ordered.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..cfa9876 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -32,20 +32,18 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
 
-        auto first = glyph_refs.begin() + 1;
-        auto last = glyph_refs.end();
-        // re-assign duplication
-        for (; first != last; ++first) {
-            if (EqViews{}(first->get(), (first-1)->get())) {
-                *first = *(first-1);
-            }
-        }
+        auto index_of = [&](Views const & views) {
+            return static_cast<unsigned>(&views - &glyphs[0]);
+        };
 
+        // the glyphs with the same words share the index of one of them
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
-        for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
-            ++it;
+        auto same = glyph_refs.begin();
+        for (auto it = same; it != glyph_refs.end(); ++it) {
+            if (!EqViews{}(it->get(), same->get())) {
+                same = it;
+            }
+            id_views[index_of(*it)] = index_of(*same);
         }
     }
     return id_views;
-- 
2.43.0


From 188eede288b633ae1b90d9edfeeb9eb9924f1352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 11/30] fix: filter_by_lines: take the first box into account
 in the maxima

With one character, or when the first one is the lowest (or starts the
lowest), the histogram was too short: out of bounds writes, or a 16 GB
allocation.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From afe4371e92d0f03f2f65cdb16059758c8c2ca141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 12/30] fix: filter_by_lines: test the second candidate when
 the first is kept

It was kept without being tested, and not counted.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 7a24bd0..9dec663 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,10 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
+                ++count;
+                while (first != last && !pred(*first)) {
                     first = std::find_if(first+1, last, view_equal_to(first->get().word));
                     ++count;
-                } while (first != last && !pred(*first));
+                }
                 out = first;
             }
             while (first != last) {
-- 
2.43.0


From 57a5ff8df30f6854bb2e2ed8f493968d86fc02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 13/30] fix: disambiguous_with_dict: treat the first characters
 as the others

The unrecognized characters before the first letter were neither written
as '?' nor counted, and the space after a first word made of punctuation
was lost.
---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..fdb5dc7 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -168,11 +168,8 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
 
     auto first = ambiguous.begin();
     auto last = ambiguous.end();
-    auto middle = std::find_if_not(first, first + *it_space, search_fn);
-    for (; first != middle; ++first) {
-        append(result, glyphs, *first);
-    }
-    if (first == ambiguous.begin() + *it_space) {
+    // space before the first character
+    if (*it_space == 0) {
         ++it_space;
     }
     while (first != last) {
-- 
2.43.0


From 8c15d0dda7645cafdf96b08544cebd7a85d364b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 14/30] fix: ocr2_extract_text: divide the unrecognized rate by
 the number of characters

---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From 1b3c028cead1ef1c65c54108962d3c378ed5fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 15/30] fix: ocr2_extract_text: filter the candidates of each
 character separately

Characters with the same image shared one list, so filtering them for one
position in the line (an apostrophe) removed the right candidates of
another (a comma).
---
 main/ocr2_extract_text.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index 4a639dc..f1adcd9 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -36,6 +36,7 @@
 
 #include <iostream>
 #include <chrono>
+#include <deque>
 
 using namespace ppocr;
 
@@ -100,6 +101,8 @@ int main(int ac, char **av)
 
     ocr2::image_cache_type_t images_cache;
 
+    // one list by character: the filters depend on its position
+    std::deque<ocr2::view_ref_list> candidates;
     ocr2::ambiguous_t ambiguous;
 
     std::cout << " ## go" << std::endl;
@@ -130,7 +133,7 @@ int main(int ac, char **av)
 
         auto it = images_cache.find(img_word);
         if (it != images_cache.end()) {
-            ambiguous.emplace_back(it->second);
+            ambiguous.emplace_back(candidates.emplace_back(it->second));
         }
         else {
             std::cout << img_word;
@@ -154,7 +157,7 @@ int main(int ac, char **av)
                 img_word.clone(),
                 std::move(cache_element)
             ).first;
-            ambiguous.emplace_back(it->second);
+            ambiguous.emplace_back(candidates.emplace_back(it->second));
             for (ocr2::View const & view : it->second) {
                 std::cout << glyphs.get_word(view) << " ";
             }
-- 
2.43.0


From 621c52f75cd30ef9185521268b621598b185a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 16/30] fix: make_trie_dictionary: read every words file, not
 only the first

Opening a stream which is already open fails.
---
 main/make_trie_dictionary.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..232fef6 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -48,6 +48,7 @@ int main(int ac, char ** av) {
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+        file.close();
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0


From 4375ea2f827e6ce0b1121db21d3b4edfff978d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 17/30] fix: replace_words: continue after the replacement

A replacement which contains its pattern was replaced again for ever.
---
 src/ppocr/ocr2/replacement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..2fdf868 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -38,9 +38,13 @@ std::istream & operator >> (std::istream & is, Replacements & replacements);
 
 inline void replace_words(std::string & result, Replacements const & replacements) {
     for (Replacement const & rep : replacements) {
+        if (rep.pattern.empty()) {
+            continue;
+        }
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 7b5c8b53a55308508ab52ac2447a473244152edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 18/30] fix: Replacements: a pattern alone at the end of the
 file has no replacement

It took the replacement of the previous line.
---
 src/ppocr/ocr2/replacement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..823a5e7 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -34,6 +34,9 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacemen
                 rep.replace.clear();
             }
         }
+        else {
+            rep.replace.clear();
+        }
         if (is) {
             replacements.push_back(rep);
         }
-- 
2.43.0


From d9d8fce0bbe9e601c6177bcd908a1f76713b9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 19/30] fix: a luminance which does not fit in an unsigned is
 refused, not truncated

---
 main/show_glyphs.cpp  | 6 ++++--
 main/write_glyphs.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 9dcedbb..8ba6925 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -21,6 +21,7 @@
 #include "ppocr/box_char/make_box_character.hpp"
 
 #include <iostream>
+#include <limits>
 
 #include <cstdlib>
 #include <cstring>
@@ -50,10 +51,11 @@ int main(int ac, char **av)
     if (ac > 3) {
         if (av[1][0] == '-' && av[1][1] == 'l' && av[1][2] == '\0') {
             char * p;
-            luminance = std::strtoul(av[2], &p, 10);
-            if (p == av[2] || *p != '\0' || errno) {
+            unsigned long const value = std::strtoul(av[2], &p, 10);
+            if (p == av[2] || *p != '\0' || errno || value > std::numeric_limits<unsigned>::max()) {
                 return 2;
             }
+            luminance = value;
             i_ac += 2;
         }
     }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..6b6ca43 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <fstream>
 
+#include <limits>
 #include <stdexcept>
 
 #include <cstdlib>
@@ -102,10 +103,11 @@ int main(int ac, char **av)
     if (ac > 3) {
         if (av[1][0] == '-' && av[1][1] == 'l' && av[1][2] == '\0') {
             char * p;
-            luminance = std::strtoul(av[2], &p, 10);
-            if (p == av[2] || *p != '\0' || errno) {
+            unsigned long const value = std::strtoul(av[2], &p, 10);
+            if (p == av[2] || *p != '\0' || errno || value > std::numeric_limits<unsigned>::max()) {
                 return 2;
             }
+            luminance = value;
             i_ac += 2;
         }
     }
-- 
2.43.0


From eec3a922fa391b3844559fb36cd91f5a775348cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 20/30] fix: read_img: refuse an image without pixel or whose
 area does not fit

---
 src/ppocr/loader2/image_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..ff85c6c 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -21,12 +21,18 @@
 
 #include <ostream>
 #include <istream>
+#include <limits>
 
 namespace ppocr { namespace loader2 {
 
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        if (!bnd.width() || !bnd.height()
+         || std::numeric_limits<decltype(bnd.area())>::max() / bnd.width() < bnd.height()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
         is.rdbuf()->snextc();
         is.read(p.get(), bnd.area());
-- 
2.43.0


From af151ff80e48bdb18c5b756e49a37c4dce1f64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 21/30] fix: loader2::Glyphs: a glyph which is cut is not the
 end of the glyphs

---
 src/ppocr/loader2/glyphs_loader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 8db5621..e3f4906 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -50,7 +50,12 @@ std::istream & operator>>(std::istream& is, Glyph & glyph) {
 
 std::istream & operator>>(std::istream& is, Glyphs & glyphs) {
     Glyph glyph;
-    while (is >> glyph) {
+    while (!(is >> std::ws).eof()) {
+        if (!(is >> glyph)) {
+            // the glyph is not complete: this is not the end of the glyphs
+            is.clear(std::ios::failbit);
+            break;
+        }
         glyphs.push_back({std::move(glyph.img), glyph.views});
     }
     return is;
-- 
2.43.0


From bc2199ce76308e3146a599cce331970646dfbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 22/30] fix: ocr2::Glyphs: a glyph which is cut is not the end
 of the glyphs

---
 src/ppocr/ocr2/glyphs.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 1c11a4f..28e7090 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -34,9 +34,11 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
     std::string word;
     constexpr auto limit_max = std::numeric_limits<std::streamsize>::max();
 
-    while (is.ignore(limit_max, '\n')) {
+    while (!(is >> std::ws).eof()) {
         unsigned n;
-        if (!(is >> n)) {
+        if (!(is.ignore(limit_max, '\n') >> n)) {
+            // the glyph is not complete: this is not the end of the glyphs
+            is.clear(std::ios::failbit);
             break;
         }
         Views views;
@@ -59,6 +61,11 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++i;
         }
 
+        if (i < n) {
+            is.clear(std::ios::failbit);
+            break;
+        }
+
         glyphs.push_back(std::move(views));
     }
 
-- 
2.43.0


From 8c2b463b93d85fa1a8cd1a9118fd3ee9d45b9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 23/30] fix: write_datas: a glyph which is cut is not the end
 of the glyphs

---
 main/write_datas.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index de12784..2ef92d4 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -47,11 +47,24 @@ int main(int ac, char **av)
 
         Image img;
         unsigned n;
-        while (loader2::read_img(file, img) >> n) {
-            file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-            while (n--) {
+        while (!(file >> std::ws).eof()) {
+            if (!(loader2::read_img(file, img) >> n)) {
+                // the glyph is not complete: this is not the end of the glyphs
+                file.clear(std::ios::failbit);
+                break;
+            }
+            if (!file.eof()) {
                 file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
             }
+            while (n--) {
+                if (!file.ignore(std::numeric_limits<std::streamsize>::max(), '\n').gcount()) {
+                    file.clear(std::ios::failbit);
+                    break;
+                }
+            }
+            if (!file) {
+                break;
+            }
             datas.load(img);
         }
 
-- 
2.43.0


From c537fb5a7bdc33907e114ac1795be5a1a86a2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 24/30] fix: reading of the datas: values which are missing are
 an error

---
 src/ppocr/defined_loader.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..7d2045d 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -214,6 +214,11 @@ namespace details_ {
                 }
             }
 
+            if (!this->is_) {
+                // a value is missing: this is not the end of the datas
+                this->is_.clear(std::ios::failbit);
+            }
+
             data = loader2::Data<Strategy>(std::move(cont));
 
             (*this)(other...);
-- 
2.43.0


From d2dcde44ff7c38f18db927c3d9815112b3b9ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 25/30] fix: Dictionary: refuse a trie which is cut or whose
 nodes are out of it

---
 src/ppocr/spell/dictionary.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..70485a1 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -91,12 +91,22 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
     unsigned sz;
     bool terminal;
     char e1, e2, e3, e4;
-    while (is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4) {
-        if (e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
+    while (is.peek() != std::istream::traits_type::eof()) {
+        if (!(is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4)
+         || e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
             throw std::runtime_error("bad format");
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    // the childrens (and for the first node, the end of the first level) are after the node and in the trie
+    for (std::size_t i = 0; i < nodes.size(); ++i) {
+        auto const & node = nodes[i];
+        auto const after = nodes.size() - i;
+        if ((!node.empty() || !i)
+         && (!node.relative_pos() || node.relative_pos() > after || node.size() > after - node.relative_pos())) {
+            throw std::runtime_error("bad format");
+        }
+    }
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From c0b4dcc396821a1b51a1cd3189918c5c3e7d0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 26/30] fix: WWordsLines: an entry which is cut is not the end
 of the words

---
 src/ppocr/ocr2/word_lines.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/word_lines.cpp b/src/ppocr/ocr2/word_lines.cpp
index ea3d983..69cdc2e 100644
--- a/src/ppocr/ocr2/word_lines.cpp
+++ b/src/ppocr/ocr2/word_lines.cpp
@@ -41,7 +41,12 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, WWordsLines& wwords_line
 {
     WWordLines wwl;
     std::string s;
-    while (is >> s >> wwl.wlines) {
+    while (!(is >> std::ws).eof()) {
+        if (!(is >> s >> wwl.wlines)) {
+            // the lines of the word are not complete: this is not the end of the words
+            is.clear(std::ios::failbit);
+            break;
+        }
         if (s.size() <= 8) {
             memcpy(wwl.str_data, s.data(), s.size());
             wwl.str_len = static_cast<uint16_t>(s.size());
-- 
2.43.0


From dab2166a5bb2f3aa8314463b2fe791ef2fa03912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:50 +0000
Subject: [PATCH 27/30] fix: programs: an output which is not all written is an
 error

---
 main/make_trie_dictionary.cpp | 5 +++++
 main/normalize_glyphs.cpp     | 5 +++++
 main/ocr2_extract_text.cpp    | 5 +++++
 main/show_glyphs.cpp          | 5 +++++
 main/write_datas.cpp          | 5 +++++
 main/write_glyphs.cpp         | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 232fef6..a0f23ec 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -52,4 +52,9 @@ int main(int ac, char ** av) {
     }
 
     std::cout << spell::Dictionary(std::move(words));
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 3;
+    }
 }
diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index 517b261..dcbd8d6 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -91,4 +91,9 @@ int main(int ac, char **av)
 
     std::cerr << "Glyphs: " << glyphs.size() << std::endl;
     std::cout << glyphs;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f1adcd9..1ba0d08 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -197,4 +197,9 @@ int main(int ac, char **av)
       << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 2;
+    }
 }
diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 8ba6925..ed5bd0e 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -67,4 +67,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; ++i_ac) {
         load_file(av[i_ac], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 3;
+    }
 }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index 2ef92d4..45b8eb2 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -76,4 +76,9 @@ int main(int ac, char **av)
     }
 
     std::cout << datas;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 6b6ca43..b7c631b 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -119,4 +119,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; i_ac += 3) {
         load_file(av[i_ac], av[i_ac+1], av[i_ac+2], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 3;
+    }
 }
-- 
2.43.0


From 942e565959427a897c2c2a9add8c034e47bf39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 28/30] fix: write_glyphs, make_trie_dictionary: a text or a
 words file which cannot be read is an error

---
 main/make_trie_dictionary.cpp | 6 +++++-
 main/write_glyphs.cpp         | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index a0f23ec..c95bd5c 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -41,13 +41,17 @@ int main(int ac, char ** av) {
         file.open(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
-            continue;
+            return 2;
         }
 
         std::string s;
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+        if (!file.eof()) {
+            std::cerr << av[i] << ": read error" << std::endl;
+            return 5;
+        }
         file.close();
     }
 
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index b7c631b..1a7510a 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -91,6 +91,10 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+
+    if (!file.eof()) {
+        throw_error(imagefilename, textfilename, fontname, "read error");
+    }
 }
 
 }
-- 
2.43.0


From 6e3370e9a457b5960bfc6839a27564cb04ad17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:10 +0000
Subject: [PATCH 29/30] fix: utf: a sequence which is cut by the end of the
 string was read beyond it

---
 src/ppocr/utils/utf.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/ppocr/utils/utf.hpp b/src/ppocr/utils/utf.hpp
index 951aae1..a014e81 100644
--- a/src/ppocr/utils/utf.hpp
+++ b/src/ppocr/utils/utf.hpp
@@ -21,6 +21,16 @@
 
 namespace ppocr { namespace utf {
 // TODO redemption classe
+    // the n bytes after the first one of a sequence are there (the end of the string is not one of them)
+    inline bool has_bytes(const uint8_t * source, unsigned n)
+    {
+        while (n && *source) {
+            ++source;
+            --n;
+        }
+        return !n;
+    }
+
     class UTF8toUnicodeIterator
     {
         const uint8_t * source;
@@ -47,15 +57,27 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!has_bytes(source, 1)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x1F) << 6)|(source[0] & 0x3F);
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!has_bytes(source, 2)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x0F) << 12)|((source[0] & 0x3F) << 6)|(source[1] & 0x3F);
                     source += 2;
                 break;
                 case 0xF:
+                    if (!has_bytes(source, 3)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = ((this->ucode & 0x07) << 18)|((source[0] & 0x3F) << 12)|((source[1] & 0x3F) << 6)|(source[2] & 0x3F);
                     source += 3;
                 break;
@@ -102,15 +124,27 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!has_bytes(source, 1)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 8) | source[0];
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!has_bytes(source, 2)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 16) | (source[0] << 8) | source[1];
                     source += 2;
                 break;
                 case 0xF:
+                    if (!has_bytes(source, 3)) {
+                        ucode = 0;
+                        break;
+                    }
                     this->ucode = (this->ucode << 24) | (source[0] << 16) | (source[1] << 8) | source[2];
                     source += 3;
                 break;
-- 
2.43.0


From a9c48c2bafb9643eb80e4c08154b37373a70dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:43 +0000
Subject: [PATCH 30/30] fix: measures of large images: sums which do not fit in
 32 bits

---
 src/ppocr/strategies/density.cpp              |  4 ++-
 src/ppocr/strategies/dvdirection.cpp          |  2 +-
 src/ppocr/strategies/dvdirection2.cpp         |  2 +-
 src/ppocr/strategies/dvgravity.cpp            |  2 +-
 src/ppocr/strategies/dvgravity2.cpp           |  2 +-
 src/ppocr/strategies/dzdensity.cpp            | 26 +++++++++----------
 src/ppocr/strategies/hdirection.cpp           |  2 +-
 src/ppocr/strategies/hdirection2.cpp          |  6 +++--
 src/ppocr/strategies/hgravity.cpp             |  2 +-
 src/ppocr/strategies/hgravity2.cpp            |  6 +++--
 src/ppocr/strategies/proportionality.cpp      |  4 ++-
 src/ppocr/strategies/proportionality_zone.cpp |  3 ++-
 .../utils/diagonal_vertical_direction.hpp     |  4 +--
 .../utils/diagonal_vertical_gravity.hpp       | 10 +++----
 .../strategies/utils/horizontal_gravity.hpp   |  4 +--
 .../strategies/utils/horizontal_zone.hpp      |  2 +-
 src/ppocr/strategies/utils/top_bottom.hpp     |  5 +++-
 17 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/ppocr/strategies/density.cpp b/src/ppocr/strategies/density.cpp
index eb5de9d..7081a44 100644
--- a/src/ppocr/strategies/density.cpp
+++ b/src/ppocr/strategies/density.cpp
@@ -20,6 +20,8 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_type& /*ctx*/)
@@ -32,7 +34,7 @@ density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_
             ++count;
         }
     }
-    return count * 100 / img.area();
+    return value_type(std::uint64_t{count} * 100 / img.area());
 }
 
 } }
diff --git a/src/ppocr/strategies/dvdirection.cpp b/src/ppocr/strategies/dvdirection.cpp
index 601624e..9385bbb 100644
--- a/src/ppocr/strategies/dvdirection.cpp
+++ b/src/ppocr/strategies/dvdirection.cpp
@@ -26,7 +26,7 @@ dvdirection::value_type dvdirection::load(Image const & img, Image const & /*img
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/dvdirection2.cpp b/src/ppocr/strategies/dvdirection2.cpp
index 121781d..bfc8028 100644
--- a/src/ppocr/strategies/dvdirection2.cpp
+++ b/src/ppocr/strategies/dvdirection2.cpp
@@ -31,7 +31,7 @@ dvdirection2::value_type dvdirection2::load(const Image& img, const Image&, ctx_
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
     auto const ret = (sum + top_bottom.top - top_bottom.bottom) * 100 / area;
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/dvgravity.cpp b/src/ppocr/strategies/dvgravity.cpp
index 8d71880..8ba6b74 100644
--- a/src/ppocr/strategies/dvgravity.cpp
+++ b/src/ppocr/strategies/dvgravity.cpp
@@ -26,7 +26,7 @@ dvgravity::value_type dvgravity::load(Image const & img, Image const & /*img90*/
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/dvgravity2.cpp b/src/ppocr/strategies/dvgravity2.cpp
index ccc9f5d..1e655cb 100644
--- a/src/ppocr/strategies/dvgravity2.cpp
+++ b/src/ppocr/strategies/dvgravity2.cpp
@@ -31,7 +31,7 @@ dvgravity2::value_type dvgravity2::load(Image const & img, Image const & /*img90
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
     auto const ret = (sum + top_bottom.top - top_bottom.bottom) * 100 / area;
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/dzdensity.cpp b/src/ppocr/strategies/dzdensity.cpp
index fda4cef..f98820a 100644
--- a/src/ppocr/strategies/dzdensity.cpp
+++ b/src/ppocr/strategies/dzdensity.cpp
@@ -21,25 +21,27 @@
 #include "ppocr/image/image.hpp"
 
 #include <algorithm>
+#include <cstdint>
 
 namespace ppocr { namespace strategies {
 
 namespace {
     template<class Fn>
     void dzdensity_load_impl(Image const & img, Fn f) {
-        int const area = int(img.area());
-        int const h3 = int(img.height() * 3);
-        int const w3 = int(img.width() * 3);
-        int yp = 0;
+        using integer = std::int64_t;
+        integer const area = img.area();
+        integer const h3 = integer(img.height()) * 3;
+        integer const w3 = integer(img.width()) * 3;
+        integer yp = 0;
         for (unsigned y = 0; y < img.height(); ++y, yp += w3) {
             //double const d = double(img.width())/3.;
             //double const xs = std::ceil(double(y+1)*w/h-d);
             //double const xe = std::floor(double(y )*w/h+d);
-            int const xs_ = (w3 + yp - area + h3-1) / h3;
-            int const xe_ = (     yp + area       ) / h3;
+            integer const xs_ = (w3 + yp - area + h3-1) / h3;
+            integer const xe_ = (     yp + area       ) / h3;
 
-            int const xs = std::max(0, xs_);
-            int const xe = std::min(int(img.width()), xe_);
+            integer const xs = std::max(integer(0), xs_);
+            integer const xe = std::min(integer(img.width()), xe_);
 
             f(xs, xe);
         }
@@ -52,12 +54,10 @@ dzdensity::value_type dzdensity::load(Image const & img, Image const & /*img90*/
         return 0;
     }
 
-    int res = 0;
-    int area = 0;
+    std::int64_t res = 0;
+    std::int64_t area = 0;
     auto data = img.data();
-    dzdensity_load_impl(img, [&](int xs, int xe) {
-        xs = std::max(0, xs);
-        xe = std::min(int(img.width()), xe);
+    dzdensity_load_impl(img, [&](std::int64_t xs, std::int64_t xe) {
         res += std::count_if(data+xs, data+xe, is_pix_letter_fn());
         area += xe-xs;
         data += img.width();
diff --git a/src/ppocr/strategies/hdirection.cpp b/src/ppocr/strategies/hdirection.cpp
index b776e76..7985d00 100644
--- a/src/ppocr/strategies/hdirection.cpp
+++ b/src/ppocr/strategies/hdirection.cpp
@@ -26,7 +26,7 @@ hdirection::value_type hdirection::load(Image const & img, Image const & /*img90
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/hdirection2.cpp b/src/ppocr/strategies/hdirection2.cpp
index 47aabb2..db1acb5 100644
--- a/src/ppocr/strategies/hdirection2.cpp
+++ b/src/ppocr/strategies/hdirection2.cpp
@@ -21,6 +21,8 @@
 #include "ppocr/image/image.hpp"
 
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 hdirection2::value_type hdirection2::load(Image const & img, Image const & /*img90*/, ctx_type& ctx)
@@ -29,10 +31,10 @@ hdirection2::value_type hdirection2::load(Image const & img, Image const & /*img
     if (!hby2) {
         return 50;
     }
-    auto const area = hby2 * img.width();
+    auto const area = std::uint64_t{hby2} * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/hgravity.cpp b/src/ppocr/strategies/hgravity.cpp
index 2798ec2..41d545d 100644
--- a/src/ppocr/strategies/hgravity.cpp
+++ b/src/ppocr/strategies/hgravity.cpp
@@ -26,7 +26,7 @@ hgravity::value_type hgravity::load(Image const & img, Image const & /*img90*/,
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/hgravity2.cpp b/src/ppocr/strategies/hgravity2.cpp
index 68947cd..4edcade 100644
--- a/src/ppocr/strategies/hgravity2.cpp
+++ b/src/ppocr/strategies/hgravity2.cpp
@@ -21,6 +21,8 @@
 #include "ppocr/image/image.hpp"
 
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/, ctx_type& ctx)
@@ -29,10 +31,10 @@ hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/
     if (!hby2) {
         return 50;
     }
-    auto const area = ((hby2 * (hby2 + 1)) / 2) * img.width();
+    auto const area = ((std::uint64_t{hby2} * (hby2 + 1)) / 2) * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/proportionality.cpp b/src/ppocr/strategies/proportionality.cpp
index 3d4c77f..bd67fb7 100644
--- a/src/ppocr/strategies/proportionality.cpp
+++ b/src/ppocr/strategies/proportionality.cpp
@@ -20,9 +20,11 @@
 #include "ppocr/image/image.hpp"
 
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 proportionality::value_type proportionality::load(Image const & img, Image const & /*img90*/, ctx_type& /*ctx*/)
-{ return img.width() * 100 / (img.width() + img.height()); }
+{ return value_type(std::uint64_t{img.width()} * 100 / (std::uint64_t{img.width()} + img.height())); }
 
 } }
diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index effa1d2..2841adb 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -21,6 +21,7 @@
 #include "ppocr/strategies/utils/relationship.hpp"
 
 #include <algorithm>
+#include <cstdint>
 #include <numeric>
 
 namespace ppocr { namespace strategies {
@@ -51,7 +52,7 @@ proportionality_zone::value_type proportionality_zone::load(Image const & img, I
     ret.resize(static_cast<std::size_t>(it - ret.begin()));
 
     for (unsigned& n : ret) {
-        n = n * 100 / area;
+        n = unsigned(std::uint64_t{n} * 100 / area);
     }
 
     std::sort(ret.begin(), ret.end());
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
index 342d750..0802bab 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
@@ -60,13 +60,13 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_direction_area(const Image& img)
+inline std::uint64_t diagonal_vertical_direction_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
index e7ab70d..859d8ae 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
@@ -25,10 +25,10 @@
 namespace ppocr { namespace strategies { namespace utils {
 
 namespace details_ {
-    inline unsigned count_diagonal_vertical_gravity(
+    inline std::uint64_t count_diagonal_vertical_gravity(
         Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top
     ) {
-        unsigned g = 0;
+        std::uint64_t g = 0;
         unsigned coef = is_top ? bnd.height() : 1;
         unsigned ih = 0;
         unsigned const wdiv2 = bnd.width()/2;
@@ -47,18 +47,18 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_gravity_area(const Image& img)
+inline std::uint64_t diagonal_vertical_gravity_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
         unsigned x = wdiv2 - bnd.width() / (bnd.height() - ih) / 2;
-        area += (bnd.width() - x*2) * (ih+1);
+        area += std::uint64_t{bnd.width() - x*2} * (ih+1);
     }
     return area * 2;
 }
diff --git a/src/ppocr/strategies/utils/horizontal_gravity.hpp b/src/ppocr/strategies/utils/horizontal_gravity.hpp
index 5652f62..be8fbc6 100644
--- a/src/ppocr/strategies/utils/horizontal_gravity.hpp
+++ b/src/ppocr/strategies/utils/horizontal_gravity.hpp
@@ -29,9 +29,9 @@ namespace ppocr { namespace strategies { namespace utils {
  * Multiply each pixel with the distance [\a bnd.height(), y]
  */
 inline
-unsigned horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
+std::uint64_t horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
 {
-    unsigned /*long*/ g = 0;
+    std::uint64_t g = 0;
     unsigned h = is_top ? bnd.height() : 1;
     while (p != ep) {
         for (auto epl = p + bnd.width(); p != epl; ++p) {
diff --git a/src/ppocr/strategies/utils/horizontal_zone.hpp b/src/ppocr/strategies/utils/horizontal_zone.hpp
index a30c4da..344b4f7 100644
--- a/src/ppocr/strategies/utils/horizontal_zone.hpp
+++ b/src/ppocr/strategies/utils/horizontal_zone.hpp
@@ -24,7 +24,7 @@
 
 namespace ppocr { namespace strategies { namespace utils {
 
-inline unsigned horizontal_box_zone_0_1_2(const Image& img, unsigned d)
+inline unsigned horizontal_box_zone_0_1_2(const Image& img, std::uint64_t d)
 {
     if (d > img.height() / 4) {
         if (d > img.height()) {
diff --git a/src/ppocr/strategies/utils/top_bottom.hpp b/src/ppocr/strategies/utils/top_bottom.hpp
index b673532..ae97d12 100644
--- a/src/ppocr/strategies/utils/top_bottom.hpp
+++ b/src/ppocr/strategies/utils/top_bottom.hpp
@@ -19,9 +19,12 @@
 #ifndef PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 #define PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies { namespace utils {
 
-struct TopBottom { unsigned top, bottom; };
+// the sums of a large image do not fit in 32 bits
+struct TopBottom { std::uint64_t top, bottom; };
 
 } } }
 
-- 
2.43.0

