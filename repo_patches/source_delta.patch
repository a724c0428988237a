From 9a5949d89cb818d9275d9ecf35a791dd727fe438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 01/57] fix: map unindented text to where its first kept line
 starts

unindent_and_add drops leading blank lines, but recorded the start of the
dropped text as the origin, so looking up a position in the section either
gave a line that was too early or hit the assertion in to_original_pos.
---
 src/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..e1513f3 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -589,7 +589,8 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From 5f5f8e6bc5ac495c1f8ff7720794f686369ee0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 02/57] fix: check_glob read past the end of a pattern ending
 in '['

---
 src/glob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..cff30a7 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -80,7 +80,7 @@ namespace quickbook
         assert(begin != end && *begin == '[');
         ++begin;
 
-        if (*begin == ']') throw glob_error("empty range");
+        if (begin != end && *begin == ']') throw glob_error("empty range");
 
         while (begin != end) {
             switch (*begin) {
-- 
2.43.0


From 8a5a05598a587cec17171e6a846135884b61fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 03/57] fix: check_glob ignored non-ascii characters inside a
 range or escape

---
 src/glob.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index cff30a7..6e5cf8b 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -34,9 +34,11 @@ namespace quickbook
         glob_iterator begin = pattern.begin();
         glob_iterator end = pattern.end();
 
-        while (begin != end) {
-            if (*begin < 32 || (*begin & 0x80)) is_ascii = false;
+        for (glob_iterator it = begin; it != end; ++it) {
+            if (*it < 32 || (*it & 0x80)) is_ascii = false;
+        }
 
+        while (begin != end) {
             switch (*begin) {
             case '\\':
                 check_glob_escape(begin, end);
-- 
2.43.0


From d33371fa040db762debb0cdb4c5335979ac8fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 04/57] fix: pretty printing a document that starts with code
 read before the output

---
 src/post_process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..fb3f6a1 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -345,7 +345,8 @@ namespace quickbook
         void do_code(iter_type f, iter_type l) const
         {
             state.printer.trim_spaces();
-            if (state.out[state.out.size() - 1] != '\n') state.out += '\n';
+            if (!state.out.empty() && state.out[state.out.size() - 1] != '\n')
+                state.out += '\n';
 
             // trim trailing space from after closing tag
             while (f != l && std::isspace(*(l - 1))) {
-- 
2.43.0


From d69fac3ce43bc3d8452091a278cd73e00a1a59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 05/57] fix: pretty printer could add a space after escaped
 text

The last character printed was not updated by an escape, so with a space
before the escape a line break was allowed between it and a following tag.
---
 src/post_process.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index fb3f6a1..854b09f 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -339,6 +339,7 @@ namespace quickbook
             }
             for (iter_type i = f; i != l; ++i) {
                 state.out += *i;
+                state.printer.prev = *i;
             }
         }
 
-- 
2.43.0


From 1b9b5f9f5afd1f37de3ff5017ce8e44586c14aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/57] fix: escaping a non-ascii character in a URI indexed
 out of bounds

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..49c4577 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -195,8 +195,8 @@ namespace quickbook
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    unsigned char c = static_cast<unsigned char>(uri_param[n]);
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From 6d76cf70a516289dac53d22b8100b4f3917afcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/57] fix: URI escaping treated a null character as an
 allowed one

---
 src/utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 49c4577..4230ac2 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -181,20 +181,22 @@ namespace quickbook
         static std::string escape_uri_impl(
             quickbook::string_view uri_param, char const* mark)
         {
-            // Extra capital characters for validating percent escapes.
-            static char const hex[] = "0123456789abcdefABCDEF";
+            static char const hex[] = "0123456789abcdef";
 
             std::string uri;
             uri.reserve(uri_param.size());
 
             for (std::string::size_type n = 0; n < uri_param.size(); ++n) {
                 if (static_cast<unsigned char>(uri_param[n]) > 127 ||
+                    uri_param[n] == '\0' ||
                     (!std::isalnum(static_cast<unsigned char>(uri_param[n])) &&
                      !std::strchr(mark, uri_param[n])) ||
                     (uri_param[n] == '%' &&
                      !(n + 2 < uri_param.size() &&
-                       std::strchr(hex, uri_param[n + 1]) &&
-                       std::strchr(hex, uri_param[n + 2])))) {
+                       std::isxdigit(
+                           static_cast<unsigned char>(uri_param[n + 1])) &&
+                       std::isxdigit(
+                           static_cast<unsigned char>(uri_param[n + 2]))))) {
                     unsigned char c = static_cast<unsigned char>(uri_param[n]);
                     char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
-- 
2.43.0


From 67ea7178baa368d7256604fcfd5b5b1508e8cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 08/57] fix: html generation rejected element names with digits

Docbook has elements such as sect1, which can be used in escaped xml.
---
 src/xml_parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4a043bb..f5b1fff 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -264,7 +264,8 @@ namespace quickbook
             string_iterator name_start = it;
             read_some_of(
                 it, end,
-                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:-");
+                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                "0123456789:-_.");
             if (name_start == it) {
                 throw xml_parse_error("Invalid tag", start);
             }
-- 
2.43.0


From ef1e279ef6a62130990c4c023bcb1db04a7f8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 09/57] fix: reading an attribute cut off after '=' read past
 the end

---
 src/xml_parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index f5b1fff..1ec61fa 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -276,7 +276,7 @@ namespace quickbook
             string_iterator& it, string_iterator start, string_iterator end)
         {
             read_some_of(it, end, " \t\n\r");
-            if (*it == '"' || *it == '\'') {
+            if (it != end && (*it == '"' || *it == '\'')) {
                 return read_string(it, end);
             }
             else {
-- 
2.43.0


From 2924465d9470cf1c18a6615ff86d4799612dcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 10/57] fix: --output-dir was always rejected

---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..8826f27 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -617,12 +617,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From 51fbea18ee722c1e3e4ad5c13064f2656ef08a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 11/57] fix: chunked html aborted when the output directory did
 not exist

---
 src/quickbook.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 8826f27..fd1b126 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -703,8 +703,12 @@ int main(int argc, char* argv[])
                 // If output_path was implicitly created from filein, then it
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
-                // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // been checked. The directory for chunked output is created
+                // later.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From dabbee1e8a1af98ecee0815927b127d6a09cb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 12/57] fix: html generation used an invalid iterator for
 nested footnotes

---
 src/bb2html.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..6681d6f 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -530,17 +530,17 @@ namespace quickbook
                 tag_end(gen.printer);
                 gen.printer.html += "<br/>";
                 gen.printer.html += "<hr/>";
-                for (std::vector<xml_element*>::iterator it =
-                         gen.chunk.footnotes.begin();
-                     it != gen.chunk.footnotes.end(); ++it) {
+                // Generating a footnote can add more footnotes to the list.
+                for (std::size_t i = 0; i < gen.chunk.footnotes.size(); ++i) {
+                    xml_element* footnote = gen.chunk.footnotes[i];
                     auto footnote_id =
-                        (*it)->get_attribute("(((footnote-id)))");
+                        footnote->get_attribute("(((footnote-id)))");
                     tag_start(gen.printer, "div");
                     tag_attribute(gen.printer, "id", footnote_id);
                     tag_attribute(gen.printer, "class", "footnote");
                     tag_end(gen.printer);
 
-                    generate_children_html(gen, *it);
+                    generate_children_html(gen, footnote);
                     close_tag(gen.printer, "div");
                 }
                 close_tag(gen.printer, "div");
-- 
2.43.0


From 42442d55213b4d96b6eb6345f93d1d821458f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 13/57] fix: footnotes in titles were generated again for the
 table of contents

---
 src/bb2html.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 6681d6f..30d7f01 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1380,6 +1380,11 @@ namespace quickbook
 
         NODE_RULE(footnote, gen, x)
         {
+            // Footnotes in titles are only generated where the title is.
+            if (gen.in_toc) {
+                return;
+            }
+
             // TODO: Better id generation....
             static int footnote_number = 0;
             ++footnote_number;
-- 
2.43.0


From 66713704076416ebab6b4188c17e4471647c6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 14/57] fix: html for a callout without an id dereferenced an
 end iterator

---
 src/bb2html.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 30d7f01..b49fbab 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1327,13 +1327,19 @@ namespace quickbook
                                              link->second.path(), gen.path));
                 tag_end(gen.printer);
             }
-            graphics_tag(
-                gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
-                    ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+            if (data != gen.chunk.callout_numbers.end()) {
+                graphics_tag(
+                    gen,
+                    "/callouts/" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ".png",
+                    "(" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ")");
+            }
+            else {
+                gen.printer.html += "(0)";
+            }
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From 5fb2eafd79bcdc91c751af8ee43b91a71d58b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 15/57] fix: no next link from the last page of a nested chunk

---
 src/bb2html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index b49fbab..d554186 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -355,8 +355,8 @@ namespace quickbook
                     break;
                 }
             }
-            if (!next) {
-                next = x->next();
+            for (chunk* it = x; it && !next; it = it->parent()) {
+                next = it->next();
             }
 
             chunk* prev = x->prev();
-- 
2.43.0


From c19ddb8b70fc49ac3595cc827692833ea6819687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 16/57] fix: absolute links were made relative on html pages in
 subdirectories

---
 src/bb2html.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index d554186..0c2eccc 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -8,6 +8,7 @@ http://www.boost.org/LICENSE_1_0.txt)
 
 #include "bb2html.hpp"
 #include <cassert>
+#include <cctype>
 #include <vector>
 #include <boost/algorithm/string/predicate.hpp>
 #include <boost/filesystem/fstream.hpp>
@@ -759,6 +760,22 @@ namespace quickbook
                 }
             }
 
+            // Leave absolute links and fragments alone.
+            if (!link.empty() && (link[0] == '/' || link[0] == '#')) {
+                return link.to_s();
+            }
+            string_iterator scheme_end = link.begin();
+            while (scheme_end != link.end() &&
+                   (std::isalnum((unsigned char)*scheme_end) ||
+                    *scheme_end == '+' || *scheme_end == '-' ||
+                    *scheme_end == '.')) {
+                ++scheme_end;
+            }
+            if (scheme_end != link.begin() && scheme_end != link.end() &&
+                *scheme_end == ':') {
+                return link.to_s();
+            }
+
             return relative_path_from_url_paths(link, path);
         }
 
-- 
2.43.0


From d6596d716a9e8ffb17c5b4ebf92ab9294b33d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 17/57] fix: html generation dereferenced a null pointer for an
 empty document

---
 src/bb2html.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 0c2eccc..4180497 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -236,6 +236,9 @@ namespace quickbook
             }
 
             chunk_tree chunked = chunk_document(tree);
+            if (!chunked.root()) {
+                return 0;
+            }
             // Overwrite paths depending on whether output is chunked or not.
             // Really want to do something better, e.g. incorporate many section
             // chunks into their parent.
@@ -256,9 +259,7 @@ namespace quickbook
             }
             ids_type ids = get_id_paths(chunked.root());
             html_state state(ids, options);
-            if (chunked.root()) {
-                generate_chunks(state, chunked.root());
-            }
+            generate_chunks(state, chunked.root());
             return state.error_count;
         }
 
-- 
2.43.0


From 549eb87d90eac7ff27783b1786ff6d398b41dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 18/57] fix: the directory was lost from css and graphics urls

---
 src/path.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/path.cpp b/src/path.cpp
index 1a7582c..1b5dd75 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -440,19 +440,14 @@ namespace quickbook
                 r.path_ = path_ / x.to_s();
                 break;
             case path_or_url_url: {
+                // Like a path, append to the whole url.
                 r.url_ = url_;
-                auto pos = r.url_.rfind('/');
-                if (pos == std::string::npos) {
-                    pos = r.url_.rfind(':');
+                if (r.url_.empty() || r.url_[r.url_.size() - 1] != '/') {
+                    r.url_ += '/';
                 }
-                if (pos != std::string::npos) {
-                    r.url_.resize(pos + 1);
-                }
-                else {
-                    // Error? Empty string?
-                    r.url_ = "/";
-                }
-                r.url_ += x;
+                r.url_.append(
+                    !x.empty() && x[0] == '/' ? x.begin() + 1 : x.begin(),
+                    x.end());
                 break;
             }
             default:
-- 
2.43.0


From fb2a716860be821f0f93c6199e8424118c60a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 19/57] fix: failing to write the output was not detected

---
 src/bb2html.cpp   | 1 +
 src/quickbook.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 4180497..8a3f7d5 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -726,6 +726,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index fd1b126..837b05c 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 998f2cd179b595b879d92b64d1932a60b49ec78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 20/57] fix: --no-output was ignored

---
 src/quickbook.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 837b05c..412c4e2 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -448,6 +448,10 @@ int main(int argc, char* argv[])
             }
         }
 
+        if (vm.count("no-output")) {
+            options.style = quickbook::parse_document_options::output_none;
+        }
+
         quickbook::self_linked_headers =
             options.format != parse_document_options::html &&
             !vm.count("no-self-linked-headers");
@@ -643,7 +647,9 @@ int main(int argc, char* argv[])
             }
 
             if (!vm.count("output-file") && !vm.count("output-dir")) {
-                if (!output_specified && alt_output_specified) {
+                if (options.style ==
+                        quickbook::parse_document_options::output_none ||
+                    (!output_specified && alt_output_specified)) {
                     options.style =
                         quickbook::parse_document_options::output_none;
                 }
-- 
2.43.0


From 87d82bd93c1f0bcd2a655444d43f340bae9eb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 21/57] fix: file urls with a '?' or backslash in a file name

---
 src/path.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/path.cpp b/src/path.cpp
index 1b5dd75..b3ca1f5 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -11,6 +11,7 @@
 
 #include "path.hpp"
 #include <cassert>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/range/algorithm/replace.hpp>
 #include "for.hpp"
@@ -114,6 +115,16 @@ namespace quickbook
         return result;
     }
 
+    // escape_uri leaves '?' and '\\' alone, but in a file name they'd be taken
+    // for the start of a query or a separator.
+    static std::string escape_path_part(std::string const& part)
+    {
+        std::string result = detail::escape_uri(part);
+        boost::replace_all(result, "?", "%3f");
+        boost::replace_all(result, "\\", "%5c");
+        return result;
+    }
+
     // Convert a Boost.Filesystem path to a URL.
     //
     // I'm really not sure about this, as the meaning of root_name and
@@ -202,7 +213,7 @@ namespace quickbook
                 if (sep) {
                     result += "/";
                 }
-                result += detail::escape_uri(detail::path_to_generic(*it));
+                result += escape_path_part(part);
                 sep = true;
             }
         }
-- 
2.43.0


From bcb2597f2fefacfc9beea35550b3f1b19577dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 22/57] fix: text still in the stream survived clearing a
 string_stream

---
 src/collector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collector.hpp b/src/collector.hpp
index 920b78d..811a7e0 100644
--- a/src/collector.hpp
+++ b/src/collector.hpp
@@ -35,7 +35,11 @@ namespace quickbook
 
         std::ostream& get() const { return *stream_ptr.get(); }
 
-        void clear() { buffer_ptr->clear(); }
+        void clear()
+        {
+            stream_ptr->flush();
+            buffer_ptr->clear();
+        }
 
         void swap(std::string& other)
         {
-- 
2.43.0


From 8eec33c10c5025c65d86c6e9b9215244bc8f828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 23/57] fix: simple markup could swallow other markup and
 paragraph ends

---
 src/main_grammar.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..90a8a02 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -119,7 +119,8 @@ namespace quickbook
             member1 is_block_mask;
         };
 
-        cl::rule<scanner> simple_markup, simple_markup_end;
+        cl::rule<scanner> simple_markup, simple_markup_end,
+            simple_markup_stop;
 
         cl::rule<scanner> paragraph;
         cl::rule<scanner> list;
@@ -914,6 +915,7 @@ namespace quickbook
                             (   lookback [~cl::ch_p(boost::ref(local.mark))]
                             >>  local.simple_markup_end
                             )
+                        >>  ~cl::eps_p(local.simple_markup_stop)
                         >>  cl::anychar_p   [plain_char]
                         )
                     ]
@@ -933,7 +935,13 @@ namespace quickbook
                                                  // final mark must be followed by
                                                  // space or punctuation
                 )
-            |   '['
+            |   local.simple_markup_stop
+                ;
+
+        // Simple markup can't contain other markup, or go past the end of
+        // its block.
+        local.simple_markup_stop
+            =   cl::ch_p('[')
             |   "'''"
             |   '`'
             |   phrase_end
-- 
2.43.0


From 437646fc4fd248ba4fc8d578a770748b29ed9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 24/57] fix: time to parse unclosed comments doubled with each
 open bracket

---
 src/main_grammar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 90a8a02..94c73fc 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1093,19 +1093,19 @@ namespace quickbook
                                                 // when preformatted.
 
         comment =
-            "[/" >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            "[/" >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         local.dummy_block =
-            '[' >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            '[' >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         line_comment =
-            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         local.line_dummy_block =
-            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         macro_identifier =
-- 
2.43.0


From c68d5d2c5697d1f8561571989ff2edac1da00307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 25/57] fix: a less indented list in a nested block was
 reported as an error

---
 src/main_grammar.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 94c73fc..ce0f437 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1291,8 +1291,6 @@ namespace quickbook
             state_.end_list_item();
         }
         else {
-            // This should never reach root, since the first list
-            // has indentation 0.
             while (list_stack.top().type == list_stack_item::syntactic_list &&
                    new_indent < list_stack.top().indent) {
                 state_.end_list_item();
@@ -1300,7 +1298,16 @@ namespace quickbook
                 list_stack.pop();
             }
 
-            state_.end_list_item();
+            if (list_stack.top().type == list_stack_item::syntactic_list) {
+                state_.end_list_item();
+            }
+            else {
+                // In a nested block the first list can be indented more than
+                // the following ones.
+                list_stack.push(
+                    list_stack_item(list_mark, new_indent, new_indent2));
+                state_.start_list(list_mark);
+            }
         }
 
         list_indent = new_indent;
-- 
2.43.0


From 964f5618cdd17dfeaaadc928e29f293f451c773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:34 +0000
Subject: [PATCH 26/57] fix: unbalanced sections in a nested block gave
 ill-formed output

---
 src/main_grammar.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index ce0f437..f0dd906 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -17,6 +17,7 @@
 #include <boost/spirit/include/phoenix1_primitives.hpp>
 #include "actions.hpp"
 #include "block_tags.hpp"
+#include "document_state.hpp"
 #include "grammar_impl.hpp"
 #include "parsers.hpp"
 #include "phrase_tags.hpp"
@@ -47,6 +48,8 @@ namespace quickbook
         unsigned int indent2; // Indent of paragraph
         char mark;            // List mark, '\0' if not in a list.
 
+        int min_section_level; // The enclosing value, for a nested block.
+
         // Example of inside a list:
         //
         //   |indent
@@ -54,7 +57,11 @@ namespace quickbook
         //     |indent2
 
         explicit list_stack_item(list_item_type r)
-            : type(r), indent(0), indent2(0), mark('\0')
+            : type(r)
+            , indent(0)
+            , indent2(0)
+            , mark('\0')
+            , min_section_level(0)
         {
         }
 
@@ -64,6 +71,7 @@ namespace quickbook
             , indent(indent_)
             , indent2(indent2_)
             , mark(mark_)
+            , min_section_level(0)
         {
         }
     };
@@ -1151,11 +1159,26 @@ namespace quickbook
         state_.explicit_list = false;
 
         list_stack.push(list_stack_item(list_stack_item::nested_block));
+
+        // Any sections in the block have to be balanced.
+        list_stack.top().min_section_level = state_.min_section_level;
+        state_.min_section_level = state_.document.section_level();
     }
 
-    void main_grammar_local::end_blocks_impl(parse_iterator, parse_iterator)
+    void main_grammar_local::end_blocks_impl(
+        parse_iterator first, parse_iterator)
     {
         clear_stack();
+
+        if (list_stack.top().type == list_stack_item::nested_block) {
+            if (state_.document.section_level() != state_.min_section_level) {
+                detail::outerr(state_.current_file, first.base())
+                    << "Missing [endsect] in nested block." << std::endl;
+                ++state_.error_count;
+            }
+            state_.min_section_level = list_stack.top().min_section_level;
+        }
+
         list_stack.pop();
     }
 
-- 
2.43.0


From bb04f1d3f9c036194fe973bd29db5e140640dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:27 +0000
Subject: [PATCH 27/57] fix: pretty printing failed on a code block inside
 preformatted text

---
 src/post_process.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 854b09f..7618c09 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -263,16 +263,35 @@ namespace quickbook
                     >>  cl::lexeme_d[cl::str_p("pre")]
                     >>  *(cl::anychar_p - '>')
                     >>  ">"
-                    >>  *(cl::anychar_p - "</pre>")
+                    >>  *(nested_pre | (cl::anychar_p - "</pre>"))
                     >>  "</pre"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     |   cl::eps_p(!ph::var(self.is_html))
                     >>   "<programlisting>"
-                    >>  *(cl::anychar_p - "</programlisting>")
+                    >>  *(nested_code | (cl::anychar_p - "</programlisting>"))
                     >>  "</programlisting"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     ;
 
+                nested_pre =
+                        "<pre"
+                    >>  *(cl::anychar_p - '>')
+                    >>  ">"
+                    >>  *(  nested_pre
+                        |   (cl::anychar_p - (cl::str_p("<pre") | "</pre>"))
+                        )
+                    >>  "</pre>"
+                    ;
+
+                nested_code =
+                        "<programlisting>"
+                    >>  *(  nested_code
+                        |   (cl::anychar_p -
+                                (cl::str_p("<programlisting>") | "</programlisting>"))
+                        )
+                    >>  "</programlisting>"
+                    ;
+
                 // What's the business of cl::lexeme_d['>' >> *cl::space_p]; ?
                 // It is there to preserve the space after the tag that is
                 // otherwise consumed by the cl::space_p skipper.
@@ -320,7 +339,7 @@ namespace quickbook
             cl::rule<Scanner> const& start() { return tidy; }
 
             cl::rule<Scanner> tidy, tag, start_tag, start_end_tag, content,
-                end_tag, markup, code, escape;
+                end_tag, markup, code, nested_pre, nested_code, escape;
         };
 
         void do_escape_post(iter_type f, iter_type l) const
-- 
2.43.0


From c9acceccd72311dd4f7eae28b0dae0bec4c87ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 28/57] fix: identifiers with special characters were written
 unescaped

---
 src/id_generation.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index 15c5e39..4299dfd 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -13,6 +13,7 @@
 #include <boost/unordered_map.hpp>
 #include "document_state_impl.hpp"
 #include "for.hpp"
+#include "utils.hpp"
 
 namespace quickbook
 {
@@ -302,11 +303,16 @@ namespace quickbook
         void id_value(quickbook::string_view value)
         {
             if (id_placeholder const* p = state.get_placeholder(value)) {
-                quickbook::string_view id =
-                    ids ? (*ids)[p->index] : p->unresolved_id;
-
                 result.append(source_pos, value.begin());
-                result.append(id.begin(), id.end());
+
+                if (ids) {
+                    // Explicit ids can contain any character.
+                    result += detail::encode_string((*ids)[p->index]);
+                }
+                else {
+                    result += p->unresolved_id;
+                }
+
                 source_pos = value.end();
             }
         }
-- 
2.43.0


From 4011051287a52055e52f6fa6d28a167b2dab4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 29/57] fix: a template calling itself twice never finished

---
 src/actions.cpp | 10 ++++++++++
 src/state.cpp   |  1 +
 src/state.hpp   |  1 +
 3 files changed, 12 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..7469a21 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1272,6 +1272,15 @@ namespace quickbook
         bool is_block = symbol->content.get_tag() != template_tags::phrase;
         assert(!(is_attribute_template && is_block));
 
+        // After finding an infinite loop don't expand anything else until all
+        // the templates in it have been left, as the number of expansions
+        // could be exponential.
+
+        if (state.in_template_loop) {
+            if (state.template_depth > 0) return;
+            state.in_template_loop = false;
+        }
+
         quickbook::paragraph_action paragraph_action(state);
 
         // Finish off any existing paragraphs.
@@ -1307,6 +1316,7 @@ namespace quickbook
                 detail::outerr(state.current_file, first)
                     << "Infinite loop detected" << std::endl;
                 ++state.error_count;
+                state.in_template_loop = true;
                 return;
             }
 
diff --git a/src/state.cpp b/src/state.cpp
index 04ff6a6..b9db1ec 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -60,6 +60,7 @@ namespace quickbook
         , current_path(filein_, 0, filein_.filename())
 
         , template_depth(0)
+        , in_template_loop(false)
         , min_section_level(1)
 
         , in_list(false)
diff --git a/src/state.hpp b/src/state.hpp
index 022d262..fc1f7ce 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -73,6 +73,7 @@ namespace quickbook
 
         // state saved for templates.
         int template_depth;
+        bool in_template_loop; // Leaving the templates of an infinite loop.
         int min_section_level;
 
         // output state - scoped by templates and grammar
-- 
2.43.0


From c403b559ba4bfb76eaf1e57c8402c8b80f3f5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 30/57] fix: a file including itself overflowed the stack

---
 src/actions.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 7469a21..44e5d14 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1825,6 +1825,9 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            // Counted with the templates, to detect infinite loops.
+            ++state.template_depth;
+
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
@@ -1905,6 +1908,19 @@ namespace quickbook
         std::set<quickbook_path> search =
             include_search(parameter, state, first);
         QUICKBOOK_FOR (quickbook_path const& path, search) {
+            if (state.in_template_loop) {
+                if (state.template_depth > 0) return;
+                state.in_template_loop = false;
+            }
+
+            if (state.template_depth >= state.max_template_depth) {
+                detail::outerr(state.current_file, first)
+                    << "Infinite loop detected" << std::endl;
+                ++state.error_count;
+                state.in_template_loop = true;
+                return;
+            }
+
             try {
                 if (qbk_version_n >= 106) {
                     if (state.imported &&
-- 
2.43.0


From e47b5333cacb7493a9d8fe70e3ab7d7d6194a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 31/57] fix: a file included with two versions of the language
 crashed

---
 src/files.cpp | 4 ++++
 src/files.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index e1513f3..d06c5ab 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -134,6 +134,10 @@ namespace quickbook
 
             assert(inserted);
         }
+        else if (!pos->second->has_version(qbk_version)) {
+            // Loaded before, possibly to be used with another version.
+            return new file(filename, pos->second->source(), qbk_version);
+        }
 
         return pos->second;
     }
diff --git a/src/files.hpp b/src/files.hpp
index 4ff669d..c09a834 100644
--- a/src/files.hpp
+++ b/src/files.hpp
@@ -96,11 +96,12 @@ namespace quickbook
             return qbk_version;
         }
 
+        bool has_version(unsigned v) const { return qbk_version == v; }
+
         void version(unsigned v)
         {
-            // Check that either version hasn't been set, or it was
-            // previously set to the same version (because the same
-            // file has been loaded twice).
+            // Check that the version hasn't been set, 'load' doesn't reuse a
+            // file which already has a version when it might be different.
             assert(!qbk_version || qbk_version == v);
             qbk_version = v;
         }
-- 
2.43.0


From b226e0caf100958ea86176431b0e0657438385ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 32/57] fix: the error for an empty path was not on a line of
 its own

---
 src/include_paths.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..ef927d1 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -33,8 +33,7 @@ namespace quickbook
             std::string path_text = path.get_encoded();
             if (path_text.empty()) {
                 detail::outerr(path.get_file(), path.get_position())
-                    << "Empty path argument"
-                    << "std::endl";
+                    << "Empty path argument" << std::endl;
                 ++state.error_count;
                 return path_parameter(path_text, path_parameter::invalid);
             }
-- 
2.43.0


From 5ef46c5ea1f60520a3601d0cc39ed1b230987096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:09 +0000
Subject: [PATCH 33/57] fix: the exit status was zero for 256 command line
 errors

---
 src/quickbook.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 412c4e2..44a9135 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -768,7 +768,7 @@ int main(int argc, char* argv[])
                 return !error_count;
             }
             else {
-                return error_count;
+                return error_count != 0;
             }
         }
         else {
-- 
2.43.0


From b2c362ee70fbb043875dfc01019aed0d571a9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:51 +0000
Subject: [PATCH 34/57] fix: a comment straight after an operator was not
 highlighted as one

---
 src/syntax_highlight.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index f6a6d3e..a7d11e5 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -324,7 +324,9 @@ namespace quickbook
                     ;   // make sure we recognize whole words only
 
                 special
-                    =   +cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                    =   +(  cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                        -   (cl::str_p("//") | "/*")
+                        )
                     ;
 
                 string_char = ('\\' >> u8_codepoint_p) | (cl::anychar_p - '\\');
-- 
2.43.0


From 4f6f8769a0bb8d3f46ce5014890741225dda7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 35/57] fix: long hexadecimal numbers were not highlighted as
 numbers

---
 src/syntax_highlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index a7d11e5..f3968d2 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -341,7 +341,7 @@ namespace quickbook
 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
@@ -500,7 +500,7 @@ namespace quickbook
                 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
-- 
2.43.0


From 828476b0072c606f97f6c7872fc6877e37235bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:16 +0000
Subject: [PATCH 36/57] fix: a code snippet ended within a line was not closed

---
 src/code_snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index e2fd137..70eab52 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -269,7 +269,7 @@ namespace quickbook
                         >>  *cl::blank_p
                         >>  cl::eps_p(cl::eol_p)
                     |
-                            "/*[*/"
+                            "/*]*/"
                     ;
 
                 ignore
-- 
2.43.0


From 416976eb399fec60353c4c71eb980d97ded31517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 37/57] fix: redefining an empty code snippet crashed

---
 src/code_snippet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 70eab52..1554c8e 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -518,6 +518,8 @@ namespace quickbook
         if (in_code) {
             f.add_at_pos("\n```\n\n", position);
         }
+        // An empty snippet still needs a position, for error messages.
+        if (f.empty()) f.add_at_pos("", snippet->source_pos);
 
         std::vector<std::string> params;
 
-- 
2.43.0


From a5ab315d67e4d913d02d02384b9c217935d14543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 38/57] fix: a quickbook comment after a code snippet was shown
 as code

---
 src/code_snippet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 1554c8e..36c4fd3 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -517,6 +517,8 @@ namespace quickbook
         f.add(content, snippet->start_pos, content.get_pos());
         if (in_code) {
             f.add_at_pos("\n```\n\n", position);
+            // Code outside of snippets isn't used.
+            if (!snippet_stack) in_code = false;
         }
         // An empty snippet still needs a position, for error messages.
         if (f.empty()) f.add_at_pos("", snippet->source_pos);
-- 
2.43.0


From 45fac30af1eeabf3199e3920b7cc4b67a1418bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 39/57] fix: redefining a template was reported as a warning
 but rejected the document

---
 src/actions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 44e5d14..10e3d90 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1096,7 +1096,7 @@ namespace quickbook
         if (!state.templates.add(template_symbol(
                 identifier, template_values, body,
                 &state.templates.top_scope()))) {
-            detail::outwarn(body.get_file(), body.get_position())
+            detail::outerr(body.get_file(), body.get_position())
                 << "Template Redefinition: " << identifier << std::endl;
             ++state.error_count;
         }
-- 
2.43.0


From dd725823be8accc4cdc3f32d9955673ff55b257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 40/57] fix: the line number of a mismatched end of a code
 snippet was one too low

---
 src/code_snippet.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 36c4fd3..6a9fa1e 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -458,13 +458,19 @@ namespace quickbook
         append_code(first, last);
 
         if (!snippet_stack) {
+            // The match includes the end of the previous line.
+            string_iterator pos = first;
+            while (pos != last && (*pos == ' ' || *pos == '\t' ||
+                                   *pos == '\n' || *pos == '\r'))
+                ++pos;
+
             if (qbk_version_n >= 106u) {
-                detail::outerr(source_file, first)
+                detail::outerr(source_file, pos)
                     << "Mismatched end snippet." << std::endl;
                 ++error_count;
             }
             else {
-                detail::outwarn(source_file, first)
+                detail::outwarn(source_file, pos)
                     << "Mismatched end snippet." << std::endl;
             }
             return;
-- 
2.43.0


From 7e3381451e42ece62da895ceb1471521c6874fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:31 +0000
Subject: [PATCH 41/57] fix: markup in variable list titles was shown as
 written in quickbook 1.6 and later

---
 src/actions.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 10e3d90..328584b 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1560,13 +1560,17 @@ namespace quickbook
         write_anchors(state, state.out);
 
         value_consumer values = variable_list;
-        std::string title =
-            values.consume(table_tags::title).get_quickbook().to_s();
+        value title = values.consume(table_tags::title);
 
         state.out << "<variablelist>\n";
 
         state.out << "<title>";
-        detail::print_string(title, state.out.get());
+        if (qbk_version_n < 106u) {
+            detail::print_string(title.get_quickbook(), state.out.get());
+        }
+        else {
+            state.out << title.get_encoded();
+        }
         state.out << "</title>\n";
 
         QUICKBOOK_FOR (value_consumer entry, values) {
-- 
2.43.0


From 16292772e51441faa73d04c1546dfbcc30d3d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 42/57] fix: the alternative text of images contained html
 markup

---
 src/bb2html.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 8a3f7d5..52f9cfb 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1143,6 +1143,17 @@ namespace quickbook
             close_tag(gen.printer, "span");
         }
 
+        // The text of an element, without any markup.
+        void get_plain_text(std::string& out, xml_element* x)
+        {
+            if (x->type_ == xml_element::element_text) {
+                out += decode_string(x->contents_);
+            }
+            for (xml_element* i = x->children(); i; i = i->next()) {
+                get_plain_text(out, i);
+            }
+        }
+
         NODE_RULE(inlinemediaobject, gen, x)
         {
             bool has_image = false;
@@ -1173,9 +1184,8 @@ namespace quickbook
                         if (j->type_ == xml_element::element_node &&
                             j->name_ == "phrase") {
                             if (j->get_attribute("role") == "alt") {
-                                html_gen gen2(gen);
-                                generate_tree_html(gen2, j);
-                                alt = gen2.printer.html;
+                                alt.clear();
+                                get_plain_text(alt, j);
                             }
                         }
                     }
-- 
2.43.0


From 413b0e04f97d5d867c2559d2be3e316b83517c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 43/57] fix: the identifier given when including a document was
 lost

---
 src/document_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..906bc19 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -321,8 +321,8 @@ namespace quickbook
 
             if (!initial_doc_id.empty()) {
                 return create_new_section(
-                    empty_value(), id, id_category::explicit_section_id,
-                    default_source_mode);
+                    empty_value(), initial_doc_id,
+                    id_category::explicit_section_id, default_source_mode);
             }
             else if (!title.empty()) {
                 return create_new_section(
-- 
2.43.0


From 553679aa9dc32e6c67e72f7e15bb0f0c38727ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:58 +0000
Subject: [PATCH 44/57] fix: an unclosed size in an SVG file aborted the
 conversion

---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 328584b..d9a3667 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1009,7 +1009,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1019,7 +1019,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From caac4b172642f95eca9b385dcb8a113bbfdd46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:11 +0000
Subject: [PATCH 45/57] fix: image attributes with invalid names gave
 ill-formed output

---
 src/phrase_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_element_grammar.cpp b/src/phrase_element_grammar.cpp
index ed33e30..34c6e70 100644
--- a/src/phrase_element_grammar.cpp
+++ b/src/phrase_element_grammar.cpp
@@ -81,7 +81,7 @@ namespace quickbook
             >>  hard_space
             >>  *state.values.list()
                 [   '['
-                >>  (*(cl::alnum_p | '_')) 
+                >>  ((cl::alpha_p | '_') >> *(cl::alnum_p | '_'))
                                         [state.values.entry(ph::arg1, ph::arg2)]
                 >>  space
                 >>  (   qbk_ver(0, 106u)
-- 
2.43.0


From a7cca2cb1d5de6e3c812d51d56d0c907d0defc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:47 +0000
Subject: [PATCH 46/57] fix: unicode escapes in attributes and paths were
 escaped twice

---
 src/actions.cpp      | 30 ++++++++++++++++++++++++++++++
 src/actions.hpp      | 10 ++++++++++
 src/main_grammar.cpp |  5 +++--
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index d9a3667..6573b7c 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -9,6 +9,7 @@
     http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
 #include "actions.hpp"
+#include <cstdlib>
 #include <functional>
 #include <map>
 #include <numeric>
@@ -861,6 +862,35 @@ namespace quickbook
         }
     }
 
+    void raw_unicode_action::operator()(
+        parse_iterator first, parse_iterator last) const
+    {
+        unsigned long code = std::strtoul(
+            std::string(first, last).c_str(), 0, 16);
+
+        // Ignored, as in escape_unicode_action.
+        if (!code) return;
+
+        if (code < 0x80) {
+            state.phrase << (char)code;
+        }
+        else if (code < 0x800) {
+            state.phrase << (char)(0xc0 | (code >> 6))
+                         << (char)(0x80 | (code & 0x3f));
+        }
+        else if (code < 0x10000) {
+            state.phrase << (char)(0xe0 | (code >> 12))
+                         << (char)(0x80 | ((code >> 6) & 0x3f))
+                         << (char)(0x80 | (code & 0x3f));
+        }
+        else {
+            state.phrase << (char)(0xf0 | ((code >> 18) & 0x7))
+                         << (char)(0x80 | ((code >> 12) & 0x3f))
+                         << (char)(0x80 | ((code >> 6) & 0x3f))
+                         << (char)(0x80 | (code & 0x3f));
+        }
+    }
+
     void write_plain_text(std::ostream& out, value const& v)
     {
         if (v.is_encoded()) {
diff --git a/src/actions.hpp b/src/actions.hpp
index 7039094..b1be34f 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -239,6 +239,16 @@ namespace quickbook
         quickbook::state& state;
     };
 
+    // For use in plain text (e.g. attributes), where entities aren't used.
+    struct raw_unicode_action
+    {
+        explicit raw_unicode_action(quickbook::state& state_) : state(state_) {}
+
+        void operator()(parse_iterator first, parse_iterator last) const;
+
+        quickbook::state& state;
+    };
+
     struct break_action
     {
         explicit break_action(quickbook::state& state_) : state(state_) {}
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index f0dd906..67a1318 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -340,6 +340,7 @@ namespace quickbook
         raw_char_action raw_char(state);
         plain_char_action plain_char(state);
         escape_unicode_action escape_unicode(state);
+        raw_unicode_action raw_unicode(state);
 
         simple_phrase_action simple_markup(state);
 
@@ -990,9 +991,9 @@ namespace quickbook
             |   cl::str_p("\\ ")                // ignore an escaped space
             |   '\\' >> cl::punct_p             [raw_char]
             |   "\\u" >> cl::repeat_p(4) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_unicode]
             |   "\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_unicode]
             |   ('\\' >> cl::anychar_p)         [error("Invalid escape.")]
                                                 [raw_char]
             |   ("'''" >> !eol)                 [error("Boostbook escape invalid here.")]
-- 
2.43.0


From cbdef81756a534be393b4574cd5a0eb506bc98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 47/57] fix: unicode escapes of characters not allowed in XML
 gave ill-formed output

---
 src/actions.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 6573b7c..488d6e3 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -838,17 +838,39 @@ namespace quickbook
             detail::print_char(*first++, state.phrase.get());
     }
 
+    // Returns 0, after reporting an error, for characters that can't be
+    // represented in XML.
+    static unsigned long escaped_code_point(
+        quickbook::state& state, parse_iterator first, parse_iterator last)
+    {
+        unsigned long code =
+            std::strtoul(std::string(first, last).c_str(), 0, 16);
+
+        if ((code != 0 && code < 0x20 && code != 0x9 && code != 0xA &&
+             code != 0xD) ||
+            (code >= 0xD800 && code < 0xE000) || code == 0xFFFE ||
+            code == 0xFFFF || code > 0x10FFFF) {
+            detail::outerr(state.current_file, first.base())
+                << "Invalid unicode character: "
+                << std::string(first, last) << std::endl;
+            ++state.error_count;
+            return 0;
+        }
+
+        return code;
+    }
+
     void escape_unicode_action::operator()(
         parse_iterator first, parse_iterator last) const
     {
         write_anchors(state, state.phrase);
 
-        while (first != last && *first == '0')
-            ++first;
-
         // Just ignore \u0000
         // Maybe I should issue a warning?
-        if (first == last) return;
+        if (!escaped_code_point(state, first, last)) return;
+
+        while (first != last && *first == '0')
+            ++first;
 
         std::string hex_digits(first, last);
 
@@ -865,8 +887,7 @@ namespace quickbook
     void raw_unicode_action::operator()(
         parse_iterator first, parse_iterator last) const
     {
-        unsigned long code = std::strtoul(
-            std::string(first, last).c_str(), 0, 16);
+        unsigned long code = escaped_code_point(state, first, last);
 
         // Ignored, as in escape_unicode_action.
         if (!code) return;
-- 
2.43.0


From f44d3f56d5e17ebe5210111c550da13d7b6d3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:56 +0000
Subject: [PATCH 48/57] fix: assigning to a tree leaked the nodes it held

---
 src/tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree.hpp b/src/tree.hpp
index 7503b70..dbc5ce4 100644
--- a/src/tree.hpp
+++ b/src/tree.hpp
@@ -100,7 +100,10 @@ namespace quickbook
             ~tree() { delete_nodes(root()); }
             tree& operator=(tree<T>&& x)
             {
-                tree_base::operator=(std::move(x));
+                if (this != &x) {
+                    delete_nodes(root());
+                    tree_base::operator=(std::move(x));
+                }
                 return *this;
             }
 
-- 
2.43.0


From 65e821963611cdf5d4426ab9f9ca73e35dd6f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:29 +0000
Subject: [PATCH 49/57] fix: anchors at the end of a document were lost

---
 src/doc_info_actions.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..620e918 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -571,6 +571,17 @@ namespace quickbook
         // We've finished generating our output. Here's what we'll do
         // *after* everything else.
 
+        // Anchors with nothing after them to be attached to.
+        if (!doc_type.empty()) {
+            QUICKBOOK_FOR (auto const& anchor_id, state.anchors) {
+                state.out << "<anchor id=\"";
+                detail::print_string(anchor_id, state.out.get());
+                state.out << "\"/>";
+            }
+
+            state.anchors.clear();
+        }
+
         // Close any open sections.
         if (!doc_type.empty() && state.document.section_level() > 1) {
             if (state.strict_mode) {
-- 
2.43.0


From d8079aa8565d1bac7f3eba108ac6cd4c1a52532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:26 +0000
Subject: [PATCH 50/57] fix: style sheets and graphics with special characters
 in their path were not found

The relative path from a page was written as it is into the address. The
boost root is now escaped on its own, as the rest of the link is already
a URL.
---
 src/bb2html.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 52f9cfb..d095350 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -755,10 +755,14 @@ namespace quickbook
                     return result;
                 }
                 else {
-                    return relative_path_or_url(
-                        gen,
-                        gen.state.options.boost_root_path /
-                            string_view(it, link.end() - it));
+                    // The link is already a URL, only the root is a path.
+                    std::string result = relative_path_or_url(
+                        gen, gen.state.options.boost_root_path);
+                    if (result.empty() || result[result.size() - 1] != '/') {
+                        result += '/';
+                    }
+                    result.append(it, link.end());
+                    return result;
                 }
             }
 
@@ -799,7 +803,7 @@ namespace quickbook
         std::string relative_path_from_fs_paths(
             fs::path const& p, fs::path const& base)
         {
-            return path_to_generic(path_difference(base.parent_path(), p));
+            return file_path_to_url(path_difference(base.parent_path(), p));
         }
 
         std::string relative_path_from_url_paths(
-- 
2.43.0


From cf7680d4f0103b0e1d8150d982bdd1dfcd616c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:26 +0000
Subject: [PATCH 51/57] fix: links to pages named after identifiers with
 special characters

---
 src/bb2html.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index d095350..d778597 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -11,6 +11,7 @@ http://www.boost.org/LICENSE_1_0.txt)
 #include <cctype>
 #include <vector>
 #include <boost/algorithm/string/predicate.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/filesystem/fstream.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/lexical_cast.hpp>
@@ -90,6 +91,7 @@ namespace quickbook
         std::string relative_path_or_url(html_gen&, path_or_url const&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
+        std::string page_url(quickbook::string_view);
         std::string relative_path_from_url_paths(
             quickbook::string_view, quickbook::string_view);
 
@@ -124,7 +126,7 @@ namespace quickbook
 
             std::string path() const
             {
-                std::string p = chunk_->path_;
+                std::string p = page_url(chunk_->path_);
 
                 if (element_) {
                     p += '#';
@@ -381,7 +383,8 @@ namespace quickbook
                     tag_start(gen.printer, "a");
                     tag_attribute(
                         gen.printer, "href",
-                        get_link_from_path(gen, prev->path_, x->path_));
+                        get_link_from_path(
+                            gen, page_url(prev->path_), x->path_));
                     tag_attribute(gen.printer, "accesskey", "p");
                     tag_end(gen.printer);
                     graphics_tag(gen, "/prev.png", "prev");
@@ -392,7 +395,8 @@ namespace quickbook
                     tag_start(gen.printer, "a");
                     tag_attribute(
                         gen.printer, "href",
-                        get_link_from_path(gen, x->parent()->path_, x->path_));
+                        get_link_from_path(
+                            gen, page_url(x->parent()->path_), x->path_));
                     tag_attribute(gen.printer, "accesskey", "u");
                     tag_end(gen.printer);
                     graphics_tag(gen, "/up.png", "up");
@@ -415,7 +419,8 @@ namespace quickbook
                     tag_start(gen.printer, "a");
                     tag_attribute(
                         gen.printer, "href",
-                        get_link_from_path(gen, next->path_, x->path_));
+                        get_link_from_path(
+                            gen, page_url(next->path_), x->path_));
                     tag_attribute(gen.printer, "accesskey", "n");
                     tag_end(gen.printer);
                     graphics_tag(gen, "/next.png", "next");
@@ -806,9 +811,21 @@ namespace quickbook
             return file_path_to_url(path_difference(base.parent_path(), p));
         }
 
+        // The path of a page as part of a URL.
+        std::string page_url(quickbook::string_view path)
+        {
+            std::string result = detail::escape_uri(path);
+            boost::replace_all(result, "?", "%3f");
+            boost::replace_all(result, "\\", "%5c");
+            return result;
+        }
+
+        // Note: path is a URL, base is the path of a page.
         std::string relative_path_from_url_paths(
-            quickbook::string_view path, quickbook::string_view base)
+            quickbook::string_view path, quickbook::string_view base_path)
         {
+            std::string const base_url = page_url(base_path);
+            quickbook::string_view base(base_url);
             string_iterator path_it = path.begin();
             string_iterator base_it = base.begin();
             string_iterator path_diff_start = path_it;
-- 
2.43.0


From 59a7eebcf6c00646060872fdb1a2a3c6070905c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:37 +0000
Subject: [PATCH 52/57] fix: relative links within the directory of a page

---
 src/bb2html.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index d778597..048456f 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -861,6 +861,18 @@ namespace quickbook
                 result += "../";
             }
             result.append(path_diff_start, path.end());
+
+            // What follows the common directories has to be read as a relative
+            // path, and not as a link to the page itself, an absolute path or
+            // a scheme.
+            if (path_diff_start != path.begin() && !up_count) {
+                std::string::size_type delim = result.find_first_of(":/?#");
+                if (result.empty() ||
+                    (delim != std::string::npos &&
+                     (delim == 0 || result[delim] == ':'))) {
+                    result = "./" + result;
+                }
+            }
             return result;
         }
 
-- 
2.43.0


From 6f8cf74d6a404207cd9841dbaddf9a52e66c891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 53/57] fix: initialise the block grammar's state

The flags saved around a block were copied before they had a value.
---
 src/main_grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 67a1318..70f40a6 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -162,6 +162,9 @@ namespace quickbook
             , no_eols(true)
             , context(element_info::in_top_level)
             , mark('\0')
+            , still_in_block(false)
+            , block_type(block_types::none)
+            , element_type(element_info::nothing)
             , state_(state)
         {
         }
-- 
2.43.0


From 49e2b3df25170432910455c7503eb385bb517713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 54/57] fix: sections of a document included from a nested
 block

The level of the including document's sections was used to decide if an
[endsect] is mismatched, so a document included by a template called from
inside a section couldn't contain sections.
---
 src/doc_info_actions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 620e918..218b536 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -314,6 +314,9 @@ namespace quickbook
             compatibility_version, info.include_doc_id_, info.id_,
             info.doc_title);
 
+        // The document has its own sections, wherever it's included from.
+        state.min_section_level = state.document.section_level();
+
         // Make sure we really did have a document info block.
 
         assert(info.doc_title.check() && !info.doc_type.empty());
-- 
2.43.0


From c24f20e43b2d5dd805c4b28d64aae91f2e85c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:15 +0000
Subject: [PATCH 55/57] fix: unbalanced sections in an imported file

They were closed in the importing file, whose markup then had an end tag
too many, or an [endsect] closed a section of the importing file without
writing its end tag.
---
 src/actions.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 488d6e3..fd54e67 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1890,9 +1890,34 @@ namespace quickbook
             // update the __FILENAME__ macro
             state.update_filename_macro();
 
+            // The markup of an imported file is discarded, so its sections
+            // can't be closed by the importing file, or the other way round.
+            int section_level = state.document.section_level();
+            if (state.imported) state.min_section_level = section_level;
+
             // parse the file
             quickbook::parse_file(state, include_doc_id, true);
 
+            if (state.imported &&
+                state.document.section_level() > section_level) {
+                if (state.strict_mode) {
+                    detail::outerr(state.current_file->path)
+                        << "Missing [endsect] detected at end of file (strict "
+                           "mode)."
+                        << std::endl;
+                    ++state.error_count;
+                }
+                else {
+                    detail::outwarn(state.current_file->path)
+                        << "Missing [endsect] detected at end of file."
+                        << std::endl;
+                }
+
+                while (state.document.section_level() > section_level) {
+                    state.document.end_section();
+                }
+            }
+
             // Don't restore source_mode on older versions.
             if (keep_inner_source_mode) save.source_mode = state.source_mode;
         }
-- 
2.43.0


From 264ed2dfc1699918361e45bd97a13dc438a1a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:09 +0000
Subject: [PATCH 56/57] fix: anchors at the end of an imported file

They were written in the importing file, before whatever followed the
import.
---
 src/actions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index fd54e67..12aaeb6 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1898,6 +1898,9 @@ namespace quickbook
             // parse the file
             quickbook::parse_file(state, include_doc_id, true);
 
+            // Nor are its anchors written.
+            if (state.imported) state.anchors.clear();
+
             if (state.imported &&
                 state.document.section_level() > section_level) {
                 if (state.strict_mode) {
-- 
2.43.0


From e539b33a43778f13eb5835f377ca04e55bd79a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:43 +0000
Subject: [PATCH 57/57] fix: document attributes in any order without a
 doc_info block

---
 src/doc_info_grammar.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/doc_info_grammar.cpp b/src/doc_info_grammar.cpp
index b3ca44a..93cb1e8 100644
--- a/src/doc_info_grammar.cpp
+++ b/src/doc_info_grammar.cpp
@@ -123,9 +123,10 @@ namespace quickbook
 
         doc_info_details =
                 cl::eps_p                   [ph::var(local.source_mode_unset) = true]
-            >>  *(  space
-                >>  local.doc_attribute
-                )
+            >>  (   *(  space
+                    >>  local.doc_attribute
+                    )
+                )                           [state.values.sort()]
             >>  !(  space
                 >>  local.doc_info_block
                 )
-- 
2.43.0

