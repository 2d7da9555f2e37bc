From 063813117ad21805ce2fd92add212ef485a513a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 01/87] fix: looking up a command by its short title must not
 overwrite the long-title index

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..4339b48 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -237,16 +237,14 @@ namespace cmdr {
 
   inline typename app::cmd_matching_result app::matching_command(opt::types::parsing_context &pc) {
     cmd_matching_result cmr;
-    auto &c                          = pc.curr_command();
-    opt::types::indexed_commands &li = c._long_commands;
-    if (auto const &it = li.find(pc.title); it != li.end()) {
+    auto &c = pc.curr_command();
+    if (auto const &it = c._long_commands.find(pc.title); it != c._long_commands.end()) {
       cmr.matched = true;
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      auto const &it1 = c._short_commands.find(pc.title);
+      if (it1 != c._short_commands.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From 2f95187fe73262f44c90fb21c82737fda7cc02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 02/87] fix: count a hit only for the flag finally matched, not
 for every shorter candidate

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 4339b48..bb32291 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -273,17 +273,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              amr.obj            = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            amr.obj            = itz.second;
             break;
           }
         }
@@ -294,6 +290,13 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+
+    // only the flag finally picked was hit, the shorter candidates were not
+    if (amr.matched) {
+      is_long |= amr.obj->hit_long();
+      is_special |= amr.obj->hit_special();
+      amr.obj->update_hit_count(amr.matched_str, 1, is_long, is_special);
+    }
     return amr;
   }
 
-- 
2.43.0


From 3fe071ddcbd4fe39d4a2758ab66fe88b75ccff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 03/87] fix: strip_quotes kept the closing quote and ran out of
 bounds on all-quote strings

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..51836ce 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -440,11 +440,10 @@ namespace cmdr::string {
 
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    std::size_t p1 = 0, p2 = str.length();
+    while (p1 < p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2 - 1] == '"' || str[p2 - 1] == '\'')) p2--;
+    return str.substr(p1, p2 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From 918a17848b064a17ede992f69f624a99d3eb4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 04/87] fix: text values were cut at the first blank

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 51836ce..bf7ea31 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -453,7 +453,7 @@ namespace cmdr::string {
       is >> c;
       s = read_until(is, (char) ch);
     } else
-      is >> s;
+      std::getline(is, s, '\0'); // the whole text, blanks included
   }
 
 
-- 
2.43.0


From 3e4ea34cf5b5a6fa65920f0a132acddc9ac7097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 05/87] fix: parsing an array lost its first character and
 doubled its last element

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..7280104 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -292,24 +292,15 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_array(std::istream &is, std::vector<T> &a) {
-      bool ok;
-      char ch;
-      std::string s;
-      is >> ch;
-      if (ch != '[') s += ch;
-      while ((ok = string::read_until(is, s, ",")) == true) {
+      std::string line, s;
+      std::getline(is >> std::ws, line);
+      std::stringstream elements(string::strip(line, "[", "]"));
+      while (std::getline(elements, s, ',')) {
         std::stringstream ss(s);
-        T t;
+        T t{};
         ss >> t;
         a.push_back(t);
       }
-
-      std::getline(is, s);
-      s = string::strip(s, "", "]");
-      T t;
-      std::stringstream ss(s);
-      ss >> t;
-      a.push_back(t);
       return true;
     }
 
-- 
2.43.0


From 0a8a15eecf36f94c4b795471c1b469df9508d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 06/87] fix: skip the '=' too when further flags follow an
 attached value

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index bb32291..fd3ff06 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -110,8 +110,10 @@ namespace cmdr {
         // try solving the following input as value of this matched arg.
         auto remains          = pc.title.substr(pc.pos + amr.matched_length);
         auto remains_orig_len = remains.length();
+        int leading           = 0; // the '=' between title and value
         if (remains[0] == '=') {
           remains = remains.substr(1);
+          leading = 1;
         }
         remains = string::strip_quotes(remains);
         if (remains.empty() && pc.index + 1 < argc) {
@@ -131,7 +133,7 @@ namespace cmdr {
             --pc.index; // restore the parsing pointer
           }
         } else if (read > 0) {
-          amr.matched_length += read;
+          amr.matched_length += leading + read;
         } else if (!extra_argv) {
           amr.matched_length += (int) remains_orig_len;
         }
-- 
2.43.0


From 33825334cb397b4e4f12537b69ab70b6620307a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 07/87] fix: hitting a toggle flag must reset its siblings
 under the owning command's key

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index fd3ff06..dd4463c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -492,11 +492,10 @@ namespace cmdr {
   inline void app::on_arg_matched(opt::arg *a, opt::arg::var_type &value) {
     auto key  = a->dotted_key();
     auto *val = value.get();
-    _store.set_raw(key.c_str(), *val);
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
+      auto const &cck = cc->dotted_key();
       auto const &k   = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
@@ -510,6 +509,8 @@ namespace cmdr {
                        a->title_long());
     }
 
+    _store.set_raw(key.c_str(), *val);
+
     for (auto &cb: _on_arg_matched) {
       if (cb) {
         cb(a);
-- 
2.43.0


From 14b0043d88c7a46662e3fd46ec9f8cbcf6d163e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 08/87] fix: a throwing post-invoke handler must not be run a
 second time

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index dd4463c..25a1188 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -573,13 +573,6 @@ namespace cmdr {
         }
       }
 
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
     } catch (...) {
       if (c.on_post_invoke()) {
         c.on_post_invoke()(c, remain_args);
@@ -593,6 +586,13 @@ namespace cmdr {
         std::rethrow_exception(eptr);
       }
     }
+
+    if (c.on_post_invoke()) {
+      c.on_post_invoke()(c, remain_args);
+    }
+    if (_global_on_post_invoke) {
+      _global_on_post_invoke(c, remain_args);
+    }
     return rc;
   }
 
-- 
2.43.0


From e6f0bddc27fe75a918e33574f1c4772ac30f7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 09/87] fix: rethrow cmdr_biz_error without slicing it

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 25a1188..cf31b6f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -950,7 +950,7 @@ namespace cmdr {
 
     } catch (cmdr::exception::cmdr_biz_error const &e) {
       if (_no_catch_cmdr_biz_error) {
-        throw e;
+        throw; // keep the dynamic type such as required_flag_missed
       }
       CMDR_DUMP_WITHOUT_STACK_TRACE(e);
 
-- 
2.43.0


From 3f71fda1b54396e84526baa58133a073074d5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 10/87] fix: parse every documented spelling of a boolean and
 consume exactly it

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 113 ++---------------------
 1 file changed, 9 insertions(+), 104 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 7280104..bbfc9d6 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -15,6 +15,7 @@
 #include <variant>
 
 #include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <iomanip>
@@ -319,117 +320,21 @@ namespace cmdr::vars {
      * @return
      */
     static bool parse_bool(std::istream &is, bool &x) {
-      int ch;
-      ch = is.peek();
-      if (ch == '0') {
-        x = false;
-        is >> ch;
+      if (auto const ch = is.peek(); ch == '0' || ch == '1') {
+        x = is.get() == '1';
         return true;
       }
-      if (ch == '1') {
+
+      std::string word;
+      while (std::isalpha(is.peek())) word += static_cast<char>(std::tolower(is.get()));
+
+      if (word == "t" || word == "true" || word == "y" || word == "yes" || word == "on") {
         x = true;
-        is >> ch;
         return true;
       }
-
-      if (ch == 't' || ch == 'T') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'r' || ch == 'R') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'u' || ch == 'U') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 'e' || ch == 'E') {
-              is >> ch;
-              x = true;
-              return true;
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'e' || ch == 'E') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 's' || ch == 'S') {
-            is >> ch;
-            x = true;
-            return true;
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'a' || ch == 'A') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'l' || ch == 'L') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 's' || ch == 'S') {
-              is >> ch;
-              ch = is.peek();
-              if (ch == 'e' || ch == 'E') {
-                is >> ch;
-                x = false;
-                return true;
-              }
-              is.unget();
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = false;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'o' || ch == 'O') {
-          is >> ch;
-          x = false;
-          return true;
-        }
+      if (word == "f" || word == "false" || word == "n" || word == "no" || word == "off") {
         x = false;
         return true;
-
-      } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'n' || ch == 'N') {
-          is >> ch;
-          x = true;
-          return true;
-        }
-        if (ch == 'f' || ch == 'F') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'f' || ch == 'F') {
-            is >> ch;
-            x = false;
-            return true;
-          }
-          is.unget();
-        }
-        is.unget();
       }
       return false;
     }
-- 
2.43.0


From 2c0af0180abb9e70a10edf344eadef2e87c9cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 11/87] fix: a rejected duplicate definition must leave nothing
 behind

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 58 ++++++++++++-----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..b667584 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -84,6 +84,19 @@ namespace cmdr::opt {
 
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      // check for the duplicated titles at first, a rejected flag must leave nothing behind.
+      if (!a.title_short().empty() && _short_args.find(a.title_short()) != _short_args.end())
+        // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (_long_args.find(a.title_long()) != _long_args.end())
+        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_flag_found, &a, this);
+      for (auto const &itz: a.title_aliases()) {
+        if (itz == a.title_long() || _long_args.find(itz) != _long_args.end())
+          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -119,24 +132,11 @@ namespace cmdr::opt {
 #endif
       _indexed_args.insert({a.title_long(), ptr});
 
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
-          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (!a.title_short().empty())
         _short_args.insert({a.title_short(), ptr});
-      }
-
-      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
-        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
-
-      for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_args.find(itz); it != _long_args.end())
-          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      for (auto const &itz: a.title_aliases())
         _long_args.insert({itz, ptr});
-      }
 
       if (ptr->is_toggleable()) {
         if (ptr->default_value()->type() == typeid(bool)) {
@@ -163,6 +163,19 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      // check for the duplicated titles at first, a rejected command must leave nothing behind.
+      if (!a.title_short().empty() && _short_commands.find(a.title_short()) != _short_commands.end())
+        // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (_long_commands.find(a.title_long()) != _long_commands.end())
+        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_cmd_found, &a, this);
+      for (auto const &itz: a.title_aliases()) {
+        if (itz == a.title_long() || _long_commands.find(itz) != _long_commands.end())
+          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -189,22 +202,11 @@ namespace cmdr::opt {
 #endif
 
       _indexed_commands.insert({a.title_long(), ptr});
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
-          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (!a.title_short().empty())
         _short_commands.insert({a.title_short(), ptr});
-      }
-      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
-        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_cmd_found, &a, this);
       _long_commands.insert({a.title_long(), ptr});
-      for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_commands.find(itz); it != _long_commands.end())
-          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      for (auto const &itz: a.title_aliases())
         _long_commands.insert({itz, ptr});
-      }
 
       _last_added_command = ptr;
       ptr->owner(this);
-- 
2.43.0


From 767fd4b1ef0f9a289011082c678f68d77bf14c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 12/87] fix: reset() kept the toggle groups with dangling flags
 and the old command-lines

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index cf31b6f..d64f767 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -729,6 +729,7 @@ namespace cmdr {
 
   inline void app::reset() {
     _store.reset();
+    _args_cache.clear();
 
     _global_on_pre_invoke      = nullptr;
     _global_on_post_invoke     = nullptr;
@@ -755,6 +756,8 @@ namespace cmdr {
     _indexed_args.clear();
     _short_args.clear();
     _long_args.clear();
+    _hit_toggle_groups.clear();
+    _toggle_groups.clear();
     _all_commands.clear();
     _grouped_commands.clear();
     _indexed_commands.clear();
-- 
2.43.0


From 15edb49d86a22855e755de61eb78233bcb6ee5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 13/87] fix: the help screen looped forever if the terminal
 ends where the descriptions start

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index b667584..2e8358b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -584,7 +584,8 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      int const aw = (tw <= 0 ? 1000 : tw) - wt_real - 2;
+      auto rw      = aw > 0 ? (std::size_t) aw : d.length() + 1; // no room for wrapping, print it as is
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From 7d74711a1313b3da1743a6899ce9e9fcb0e2bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 14/87] fix: groups sharing a sort prefix dropped out of the
 help screen

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 2e8358b..bc684c6 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -388,9 +388,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -406,9 +406,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -472,7 +472,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -537,7 +537,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -755,7 +755,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
@@ -859,7 +859,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
-- 
2.43.0


From 89f404d27b071593594b37743d971b051ca634d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 15/87] fix: a group named like its own sort number must not
 abort the help screen

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index bc684c6..3798852 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -480,7 +480,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_commands.find(it.second);
         if (val_it == grouped_commands.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + ".") ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -545,7 +545,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_args.find(it.second);
         if (val_it == grouped_args.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + ".") ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -762,7 +762,7 @@ namespace cmdr::opt {
       auto const &val_it = _grouped_commands.find(it.second);
       if (val_it == _grouped_commands.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + ".") ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
@@ -866,7 +866,7 @@ namespace cmdr::opt {
       auto const &val_it = _grouped_args.find(it.second);
       if (val_it == _grouped_args.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + ".") ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
-- 
2.43.0


From 98cbee844f7189a0702a6482e155e1e36bb36096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 16/87] fix: has(prefix, key) must look up the prefixed key

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From 68d05a947652a3a3c2f08b9b1f9faae20af2eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 17/87] fix: an empty prefix must not run the sub-tree search
 out of bounds

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 6e7bc99..c227456 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -50,6 +50,7 @@ namespace cmdr::vars {
     std::shared_lock<std::shared_mutex> lock(mutex_);
 
     auto vec = string::split(prefix, '.');
+    if (vec.empty()) return null_node();
     std::size_t upr = vec.size() - 1, idx = 0;
     auto key = vec[idx];
     auto ptr = this;
-- 
2.43.0


From 7d130ba09ca61a74d625ab7f7747d59f294bae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 18/87] fix: give the null node an object so that is_null() can
 be called on it

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index bbfc9d6..a943551 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -780,7 +780,7 @@ namespace cmdr::vars {
 
     bool is_null() const noexcept { return this == null_node().get(); }
     static auto null_node() -> node_pointer { 
-      static node_pointer t{};
+      static node_pointer t = std::make_shared<self_type>();
       return t;
     }
 
-- 
2.43.0


From ccd46f5f423ac41f522919a2c2ae6f207c19d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 19/87] fix: overwriting a value with a variable must not nest
 one std::any in another

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index a943551..62d36d2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -153,6 +153,7 @@ namespace cmdr::vars {
     }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
+    void emplace(std::any &o) { _value = o; }
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
     target_type &underlying_value() { return _value; }
-- 
2.43.0


From 40df8f6b40100f8234a89c329afa3762aa6cda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 20/87] fix: assigning to a variable must copy lvalues and not
 nest variables

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 62d36d2..fc0675d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -125,14 +125,16 @@ namespace cmdr::vars {
     //     : _value(std::move(a._value)) {}
     virtual ~variable() = default;
 
-    template<typename T>
+    template<typename T,
+             std::enable_if_t<!std::is_base_of<self_type, T>::value, int> = 0>
     variable &operator=(T const &o) {
       _value = o;
       return (*this);
     }
-    template<typename T>
+    template<typename T,
+             std::enable_if_t<!std::is_base_of<self_type, std::decay_t<T>>::value, int> = 0>
     variable &operator=(T &&o) {
-      _value = std::move(o);
+      _value = std::forward<T>(o);
       return (*this);
     }
 
-- 
2.43.0


From 38439ef04a99008286c569a9da9a20bc7171345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 21/87] fix: read_until never ended on a delimiter of several
 characters

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 30 ++++++++---------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index bf7ea31..d641c81 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -401,29 +401,19 @@ namespace cmdr::string {
 
   inline std::string read_until(std::istream &in, char const *delimiter = ",") {
     std::string cr;
-    char de   = *delimiter;
-    size_t sz = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      std::getline(in, temp, de);
-      cr += temp + de;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    size_t sz = std::strlen(delimiter);
+    while (in.peek() != std::istream::traits_type::eof()) {
+      cr += (char) in.get();
+      if (cr.size() >= sz && cr.compare(cr.size() - sz, sz, delimiter) == 0)
+        return cr.substr(0, cr.size() - sz); // or return cr; if you want to keep the delimiter
+    }
+    return cr;
   }
 
   inline bool read_until(std::istream &in, std::string &ret, char const *delimiter = ",") {
-    std::string cr;
-    char delim = *delimiter;
-    size_t sz  = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      if (!std::getline(in, temp, delim))
-        return false;
-      cr += temp + delim;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    ret = cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    if (in.peek() == std::istream::traits_type::eof())
+      return false;
+    ret = read_until(in, delimiter);
     return true;
   }
 
-- 
2.43.0


From 3b6cc1439875a4591c216644fa3089dd51bdd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 22/87] fix: parse complex numbers without a real or imaginary
 part, with signs and exponents

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 26 ++++++++++--------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index fc0675d..110ee64 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -275,22 +275,18 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_complex(std::istream &is, std::complex<T> &a) {
-      bool ok;
-      std::string s;
-      ok = string::read_until(is, s, "+");
-      {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.real(t);
-      }
-      if (ok) {
-        ok = string::read_until(is, s, "i");
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
-        a.imag(t);
+      // `a`, `bi`, `a+bi`, `a-bi`, and `a+-bi` as format_complex() prints it
+      T re{}, im{};
+      is >> re;
+      if (is.good() && is.peek() == 'i') {
+        is.get();
+        std::swap(re, im);
+      } else if (is.good() && (is.peek() == '+' || is.peek() == '-')) {
+        if (is.peek() == '+') is.get();
+        is >> im;
+        if (is.good() && is.peek() == 'i') is.get();
       }
+      a = std::complex<T>(re, im);
       return true;
     }
 
-- 
2.43.0


From b2d3e69452964e0b02bd620ee3b4fb2ef96eaa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 23/87] fix: array elements of text were cut at the first
 blank, of bool took only 0 and 1

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 110ee64..32086cd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -298,7 +298,12 @@ namespace cmdr::vars {
       while (std::getline(elements, s, ',')) {
         std::stringstream ss(s);
         T t{};
-        ss >> t;
+        if constexpr (std::is_same_v<T, std::string>)
+          t = string::trim_right_space(string::trim_left_space(std::move(s)));
+        else if constexpr (std::is_same_v<T, bool>)
+          parse_bool(ss >> std::ws, t);
+        else
+          ss >> t;
         a.push_back(t);
       }
       return true;
-- 
2.43.0


From f4228155801df1a658427fb5b248ed030c08a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 24/87] fix: expand_env never ended on self references and ate
 or expanded unbalanced braces

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 32 +++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index d641c81..a3c595e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -492,27 +492,37 @@ namespace cmdr::string {
 
 
   inline std::string expand_env(std::string text) {
-    // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
-    static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
-    std::smatch match;
-    while (std::regex_search(text, match, env_re)) {
-      auto const &from     = match[0];
-      auto const &th       = match[1];
-      auto const &var_name = th.str();
+    // one pass from left to right: `$NAME` and `${NAME}` are replaced, the
+    // values put in are never expanded again.
+    auto is_name = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; };
+    std::string out;
+    std::size_t i = 0, n = text.length();
+    while (i < n) {
+      std::size_t b = i + 1;
+      bool braced   = text[i] == '$' && b < n && text[b] == '{';
+      if (braced) b++;
+      std::size_t e = b;
+      if (text[i] == '$')
+        while (e < n && is_name(text[e])) e++;
+      if (e == b || (braced && (e == n || text[e] != '}'))) {
+        out += text[i++]; // not a reference
+        continue;
+      }
+      auto const var_name = text.substr(b, e - b);
 #if defined(_WIN32) || defined(_WIN64)
       char* buf = nullptr;
       size_t sz = 0;
       if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr)
       {
-        text.replace(from.first, from.second, buf);
+        out += buf;
         free(buf);
       }
 #else
-      auto *ptr            = std::getenv(var_name.c_str());
-      text.replace(from.first, from.second, ptr ? ptr : "");
+      if (auto *ptr = std::getenv(var_name.c_str()); ptr) out += ptr;
 #endif
+      i = braced ? e + 1 : e;
     }
-    return text;
+    return out;
   }
 
 
-- 
2.43.0


From 35cf27c71a9658e7bef78daf05fa995f3ab6f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 25/87] fix: itoa overflowed on the smallest integer and stored
 shorts misaligned

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index a3c595e..99261bd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -24,6 +24,7 @@
 #define CMDR_CXX11_CMDR_STRING_HH
 
 #include <cassert>
+#include <cstring>
 
 #include <type_traits>
 
@@ -556,7 +557,7 @@ namespace cmdr::string {
       }
 
       int sign         = -(n < 0);
-      unsigned int val = (n ^ sign) - sign;
+      unsigned int val = n < 0 ? 0U - (unsigned int) n : (unsigned int) n;
 
       int size;
       if (val >= 10000) {
@@ -598,7 +599,7 @@ namespace cmdr::string {
       while (val >= 100) {
         int pos = val % 100;
         val /= 100;
-        *(short *) (c - 1) = *(short *) (digit_pairs + (std::size_t) 2 * pos);
+        std::memcpy(c - 1, digit_pairs + (std::size_t) 2 * pos, 2);
         c -= 2;
       }
       while (val > 0) {
@@ -650,7 +651,7 @@ namespace cmdr::string {
       while (val >= 100) {
         int pos = val % 100;
         val /= 100;
-        *(short *) (c - 1) = *(short *) (digit_pairs + (std::size_t) 2 * pos);
+        std::memcpy(c - 1, digit_pairs + (std::size_t) 2 * pos, 2);
         c -= 2;
       }
       while (val > 0) {
-- 
2.43.0


From e478dddc6303a21e911a1a1e5390a70e78da9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 26/87] fix: an exact match kept the distance 0, so matched()
 denied it

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 99261bd..1e22403 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -810,7 +810,7 @@ namespace cmdr::text {
 
       // Exit early if they're an exact match.
       if (s1 == s2) {
-        return 1;
+        return _distance = 1;
       }
 
       // Maximum distance upto which matching
-- 
2.43.0


From 3ef6d81249d58fea9502e0cd19f8310ec75094de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 27/87] fix: enable_feel_like_mode() set a key nobody reads

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..60e5ce9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -210,7 +210,7 @@ namespace cmdr {
      * @return
      */
     app &enable_feel_like_mode(bool b = true) {
-      set("feel-like", b);
+      _store.set_raw_p(_long.c_str(), "feel-like", b);
       return (*this);
     }
 
-- 
2.43.0


From cccac714eab303f8d7099a55fb0615eba70ba751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 28/87] fix: suggestions for unknown flags compared titles with
 the dashes included

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index d64f767..c3ba16e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -343,14 +343,14 @@ namespace cmdr {
       std::ostringstream os;
       do {
         for (auto const &cc: c->_all_args) {
-          if (jaro.calculate(pc.title.c_str(), cc.title_long().c_str()).matched()) {
+          if (jaro.calculate(pc.title_fragment.c_str(), cc.title_long().c_str()).matched()) {
             std::ostringstream tt;
             tt << "--" << cc.title_long();
             os << '\n'
                << "   - " << std::quoted(tt.str()) << ' ' << '[' << jaro.get_distance() << ']' << " (under command " << std::quoted(c->title_sequences()) << ')' << '?';
           }
           for (auto const &str: cc.title_aliases()) {
-            if (jaro.calculate(pc.title.c_str(), str.c_str()).matched()) {
+            if (jaro.calculate(pc.title_fragment.c_str(), str.c_str()).matched()) {
               std::ostringstream tt;
               tt << "--" << str;
               os << '\n'
@@ -390,7 +390,7 @@ namespace cmdr {
         for (auto const &cc: c->_all_args) {
           std::ostringstream tt;
           tt << '-' << cc.title_short();
-          if (jaro.calculate(pc.title.c_str(), cc.title_short().c_str()).matched()) {
+          if (jaro.calculate(pc.title_fragment.c_str(), cc.title_short().c_str()).matched()) {
             os << '\n'
                << "   - " << std::quoted(tt.str()) << ' ' << '[' << jaro.get_distance() << ']' << " (under command " << std::quoted(c->title_sequences()) << ')' << '?';
           }
-- 
2.43.0


From 14f5cfef827fe718b9d2b9dbfc45ced547f41395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 29/87] fix: choosing a precision dropped the time zone mode

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..d077f5d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -291,7 +291,7 @@ namespace cmdr::chrono {
         return;
       }
       if (v < fmtflags::mask_extra_fields) {
-        _flags = (fmtflags) ((unsigned int) _flags & ((unsigned int) fmtflags::mask_extra_fields + 1));
+        _flags = (fmtflags) ((unsigned int) _flags & ~(unsigned int) fmtflags::mask_extra_fields);
         _flags = (fmtflags) ((unsigned int) _flags | (unsigned int) (v));
         return;
       }
-- 
2.43.0


From ff8c056df3f4b547a4f93e094658437cc775d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 30/87] fix: durations with milli- but few or no microseconds
 printed as other durations

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index d077f5d..1d2a50b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -391,7 +391,7 @@ namespace cmdr::chrono {
     nanoseconds ns    = duration_cast<nanoseconds>(timeunit);
     // std::ostringstream os;
     bool foundNonZero = false;
-    os.fill('0');
+    const auto fill   = os.fill('0');
     typedef duration<int, std::ratio<86400 * 365>> years_;
     const auto y = duration_cast<years_>(ns);
     if (y.count()) {
@@ -439,12 +439,12 @@ namespace cmdr::chrono {
     }
     bool z2{}, zdot1{}, zdot2{};
     const auto us = duration_cast<microseconds>(ns);
-    if (us.count() || z2) {
+    if (us.count() || (z1 && ns.count())) {
       if (z1) {
         os << '.';
         zdot1 = true;
       }
-      if (foundNonZero)
+      if (foundNonZero || z1)
         os << std::setw(3) << us.count();
       else
         os << us.count();
@@ -469,6 +469,7 @@ namespace cmdr::chrono {
       else
         os << "ms";
     }
+    os.fill(fill);
     return os; // .str();
   }
 
-- 
2.43.0


From d5903bfc61b40c08aff4f61c940d1b3910b445dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 31/87] fix: time points before 1970 printed wrong seconds and
 fractions, one second before it nothing

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 1d2a50b..fb3310b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -501,30 +501,30 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ms(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    milliseconds ms                = duration_cast<milliseconds>(time.time_since_epoch());
+    milliseconds ms                = floor<milliseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ms.count() % 1000;
+    std::size_t fractional_seconds = (ms.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_us(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    microseconds us                = duration_cast<microseconds>(time.time_since_epoch());
+    microseconds us                = floor<microseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = us.count() % 1000;
+    std::size_t fractional_seconds = (us.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ns(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    nanoseconds ns                 = duration_cast<nanoseconds>(time.time_since_epoch());
+    nanoseconds ns                 = floor<nanoseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ns.count() % 1000;
+    std::size_t fractional_seconds = (ns.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
@@ -540,7 +540,7 @@ namespace cmdr::chrono {
 
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_point_2_tm(typename Clock::time_point const tp) {
-    auto time_now = Clock::to_time_t(tp);
+    auto time_now = Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(tp));
     if (GMT) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
@@ -580,9 +580,7 @@ namespace cmdr::chrono {
   inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
-    std::time_t tt = _Clock::to_time_t(time);
-    if (tt == -1)
-      return os;
+    std::time_t tt = _Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(time));
     std::tm *tm{nullptr};
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
@@ -611,7 +609,8 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
-    std::size_t ms = time_point_get_ms(time);
+    const auto fill = os.fill();
+    std::size_t ms  = time_point_get_ms(time);
     if (iom_::has(iom_::fmtflags::ns)) {
       // auto t0 = std::chrono::high_resolution_clock::now();
       // auto nanosec = t0.time_since_epoch();
@@ -639,6 +638,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
   template<class _Clock, class _Duration = typename _Clock::duration>
-- 
2.43.0


From a89c29d1136cda68b1aec9b9198cadbd91a4ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 32/87] fix: format_time_point_to_local() of now was not local

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index fb3310b..dbf0a1e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -657,7 +657,7 @@ namespace cmdr::chrono {
     serialize_time_point(ss, time, format);
     return ss.str();
   }
-  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point(std::chrono::system_clock::now(), format); }
+  inline std::string format_time_point_to_local(const char *format = "%Y-%m-%d %H:%M:%S") { return format_time_point_to_local(std::chrono::system_clock::now(), format); }
 
   inline std::ostream &serialize_tm(std::ostream &os, std::tm const *tm, const char *format = "%Y-%m-%d %H:%M:%S") {
     os << std::put_time(tm, format);
-- 
2.43.0


From 5fe3e8afbaba5901286a0bddcd38369cedae3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 33/87] fix: parse_datetime dropped the time after a slashed
 date, took the DST state of now and ignored GMT

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index dbf0a1e..58e4abe 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -915,9 +915,14 @@ namespace cmdr::chrono {
     }
 
     if (try_parse_by(tm, str,
-                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S",
-                     "%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S")) {
-      n = Clock::from_time_t(std::mktime(&tm));
+                     "%Y/%m/%d %H:%M:%S",
+                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
+      tm.tm_isdst = -1; // that of the parsed time, not that of now
+#if defined(_WIN32) || defined(_WIN64)
+      n = Clock::from_time_t(GMT ? _mkgmtime(&tm) : std::mktime(&tm));
+#else
+      n = Clock::from_time_t(GMT ? timegm(&tm) : std::mktime(&tm));
+#endif
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
 
-- 
2.43.0


From 59753d2379541c27ecb60ad5ecdeca60a9918d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 34/87] fix: last days of a month or year were off by one
 across a DST change

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 58e4abe..9ed3a1a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -700,10 +700,10 @@ namespace cmdr::chrono {
       tmp.tm_year++;
     }
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got next month 1st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
+    // subtract day_offset, in days of the calendar (a day may have 23 or 25 hours)
+    tmp.tm_mday -= day_offset; // and subtract 1 day, so we get the last day in this month
+    tmp.tm_isdst = -1;
+    auto t       = Clock::from_time_t(std::mktime(&tmp));
     // printf("  . . . . got next month 1st - %d day: %s\n", day_offset, format_time_point(t).c_str());
     return t;
   }
@@ -742,10 +742,10 @@ namespace cmdr::chrono {
     tmp.tm_mon  = 0; // Dec 31th
     tmp.tm_year++;
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got December 31st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
+    // subtract day_offset, in days of the calendar (a day may have 23 or 25 hours)
+    tmp.tm_mday -= day_offset; // and subtract 1 day, so we get the last day in this month
+    tmp.tm_isdst = -1;
+    auto t       = Clock::from_time_t(std::mktime(&tmp));
     // printf("  . . . . got December 31st + 1 - %d day: %s\n", day_offset, format_time_point(t).c_str());
     return t;
   }
-- 
2.43.0


From e2529c17547ca68015050013b82b8c3e6c9de832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 35/87] fix: compare_date_part told apart times of one day
 across a DST change and lost its sign

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 9ed3a1a..5b6ce3a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -765,14 +765,11 @@ namespace cmdr::chrono {
 
 
   template<typename Clock = std::chrono::system_clock>
-  inline bool compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
+  inline int compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
     std::tm tml = time_point_2_tm(lhs);
     std::tm tmr = time_point_2_tm(rhs);
-    tml.tm_sec  = tmr.tm_sec;
-    tml.tm_min  = tmr.tm_min;
-    tml.tm_hour = tmr.tm_hour;
-    auto l      = tm_2_time_point(tml);
-    auto r      = tm_2_time_point(tmr);
+    auto l      = std::make_tuple(tml.tm_year, tml.tm_mon, tml.tm_mday);
+    auto r      = std::make_tuple(tmr.tm_year, tmr.tm_mon, tmr.tm_mday);
     return l == r ? 0 : l < r ? -1
                               : 1;
   }
-- 
2.43.0


From 4a14c85e91f30efb054a8b5246d7f4d454cc4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 36/87] fix: tasks returning a value and const tasks could not
 be queued to thread_pool

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..95e971e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -452,7 +452,7 @@ namespace cmdr::pool {
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task.");
       std::this_thread::yield();
       return r;
@@ -460,11 +460,11 @@ namespace cmdr::pool {
 
     template<class F, class R = std::invoke_result_t<F>>
     std::future<R> queue_task(F const &task) {
-      auto p = std::packaged_task<R()>(std::forward<F>(task));
+      auto p = std::packaged_task<R()>(task);
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task (copy).");
       std::this_thread::yield();
       return r;
-- 
2.43.0


From 9216f74bbf3edb78d73e97a8db2bf4b64b80e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 37/87] fix: threaded_message_queue::empty() read the queue
 without its lock

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 95e971e..36375a1 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -410,11 +410,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      const locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From 169cb784d173b9e961cab769317324234c956f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 38/87] fix: wait_for() without a timeout overflowed and
 returned at once

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 36375a1..aaebad5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -100,7 +100,11 @@ namespace cmdr::pool {
       return _cv.wait_for(lk, rel_time, _p);
     }
 
-    bool wait_for() { return wait_for(std::chrono::hours::max()); }
+    // waits without any timeout: adding hours::max() to now would overflow and give up at once
+    bool wait_for() {
+      wait();
+      return ConditionMatched;
+    }
 
     /**
      * @brief wait_until causes the current thread to block until the
@@ -295,7 +299,7 @@ namespace cmdr::pool {
     }
 
     bool wait_for() {
-      return wait_for(std::chrono::hours::max());
+      return conditional_wait_for_bool::wait_for();
     }
 
     /**
-- 
2.43.0


From 384dc193de55d312023a35f6ac7a5df83db07f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 39/87] fix: timer_killer::terminated() raced with kill()

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index aaebad5..63dd029 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -58,7 +58,7 @@ namespace cmdr::pool {
 
   protected:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     T _var{};
 
   public:
@@ -272,7 +272,10 @@ namespace cmdr::pool {
     //     std::unique_lock<std::mutex> lock(_m);
     //     return !_cv.wait_for(lock, time, [&] { return _terminate; });
     // }
-    bool terminated() const { return val(); }
+    bool terminated() const {
+      std::unique_lock<std::mutex> const lk(_m);
+      return val();
+    }
 
     /**
      * @brief wait for Pred condition matched
-- 
2.43.0


From d7d546fd9128ff6039b7af42c2d34fdc1fce5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 40/87] fix: defer did not compile without a function or with a
 capturing lambda

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..9fa7229 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -923,7 +923,12 @@ namespace cmdr::util {
         , _fn(fn) {}
     ~defer() {
       _c.close();
-      if (_fn) { _fn(); }
+      if constexpr (std::is_invocable_v<_D &>) {
+        if constexpr (std::is_constructible_v<bool, _D &>) {
+          if (_fn) { _fn(); }
+        } else
+          _fn();
+      }
     }
 
   private:
-- 
2.43.0


From 636ab1f79562c3487535918611b0130e1aa87b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 41/87] fix: the first slot taking a subject by value emptied
 it for the other slots, operator() did not compile with subjects

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 9fa7229..9abbd9c 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1205,11 +1205,16 @@ namespace cmdr::util {
      * @param event_or_subject
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
-      for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+      for (auto &fn: _callbacks) {
+        // each slot gets its own copy, so that one taking it by value doesn't steal it from the next one
+        if constexpr ((std::is_copy_constructible_v<SignalSubjects> && ...))
+          fn(static_cast<SignalSubjects>(event_or_subjects)...);
+        else
+          fn(std::forward<SignalSubjects>(event_or_subjects)...);
+      }
       return (*this);
     }
-    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
+    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(std::forward<SignalSubjects>(event_or_subjects)...); }
 
   private:
     void clear() {}
-- 
2.43.0


From 85b84202d055ee4e3504f0e0990655a1f2e3b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 42/87] fix: singleton_with_optional_construction_args raced on
 its first use

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 9abbd9c..5137c89 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -863,9 +863,8 @@ namespace cmdr::util {
       _instance = nullptr;
     }
     static C &instance(Args... args) {
-      if (_instance == nullptr)
-        _instance = new C(args...);
-      return *_instance;
+      static C *const once = (_instance = new C(args...)); // thread-safe, as in singleton<T>
+      return *once;
     }
   };
 
-- 
2.43.0


From 2ba20b015c3efe6630a4bb430207ebb4cf591759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 43/87] fix: concurrent changes to the chain of an observable
 got lost, it was copied outside the lock

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 5137c89..dbdc560 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1017,9 +1017,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1033,9 +1033,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1049,6 +1049,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1056,7 +1057,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
-- 
2.43.0


From 2ca6c338ecbee934091a55eaa022f5bdc07974ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 44/87] fix: an observer changing the chain while being
 notified deadlocked

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index dbdc560..0432d9d 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1093,7 +1093,8 @@ namespace cmdr::util {
     void emit(subject_t const &event_or_subject) {
       if (AutoLock) {
         std::lock_guard _l(_m);
-        for (auto const &wp: _observers)
+        auto const snapshot = _observers; // an observer may change the chain while being notified
+        for (auto const &wp: snapshot)
           if (auto spt = wp.lock())
             spt->observe(event_or_subject);
       } else {
@@ -1113,7 +1114,7 @@ namespace cmdr::util {
 
   private:
     std::vector<observer_t> _observers{};
-    std::mutex _m{};
+    std::recursive_mutex _m{};
   };
 
   template<typename S, bool AutoLock = true, bool CNS = true, typename Observer = observer<S>>
-- 
2.43.0


From ca8893b82376d52a7a1ac0da56f335b0e6cd7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 45/87] fix: dump() of a priority_queue left its order below
 the second level

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..f660c96 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -93,9 +93,9 @@ namespace cmdr::queue {
       void NLR(std::function<void(element *)> const &fn) {
         fn(this);
         if (_left)
-          _left->LNR(fn);
+          _left->NLR(fn);
         if (_right)
-          _right->LNR(fn);
+          _right->NLR(fn);
       }
       // in-order traversal
       void LNR(std::function<void(element *)> const &fn) {
@@ -116,10 +116,10 @@ namespace cmdr::queue {
       // reverse in-order
       void RNL(std::function<void(element *)> const &fn) {
         if (_right)
-          _right->LRN(fn);
+          _right->RNL(fn);
         fn(this);
         if (_left)
-          _left->LRN(fn);
+          _left->RNL(fn);
       }
 
       T pop(std::size_t &count) {
-- 
2.43.0


From e7541ad24b06788562991f97f9c6bc703b7911bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 46/87] fix: priority_queue lost its order when pushing after
 the root had been emptied

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 66 +++++++------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index f660c96..bb8268d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -122,51 +122,24 @@ namespace cmdr::queue {
           _left->RNL(fn);
       }
 
-      T pop(std::size_t &count) {
-        if (ReverseComp) {
-          if (_left) {
-            std::size_t before = count;
-            T t                = _left->pop(count);
-            if (before > count)
-              return t;
-          }
-          if (!_list.empty()) {
-            count--;
-            T t;
-            std::swap(t, _list.front());
-            _list.pop_front();
-            return t;
-          }
-          if (_right) {
-            std::size_t before = count;
-            T t                = _right->pop(count);
-            if (before > count)
-              return t;
-          }
+      // an element leaves the tree together with its last item, since nothing could be ordered against it anymore
+      static T pop(std::shared_ptr<element> &at, std::size_t &count) {
+        auto &first = ReverseComp ? at->_left : at->_right;
+        if (first)
+          return pop(first, count);
+
+        if (at->_list.empty())
           return _null;
-        }
 
-        // normal
-        if (_right) {
-          std::size_t before = count;
-          T t                = _right->pop(count);
-          if (before > count)
-            return t;
+        count--;
+        T t;
+        std::swap(t, at->_list.front());
+        at->_list.pop_front();
+        if (at->_list.empty()) {
+          auto rest = ReverseComp ? at->_right : at->_left;
+          at        = rest;
         }
-        if (!_list.empty()) {
-          count--;
-          T t;
-          std::swap(t, _list.front());
-          _list.pop_front();
-          return t;
-        }
-        if (_left) {
-          std::size_t before = count;
-          T t                = _left->pop(count);
-          if (before > count)
-            return t;
-        }
-        return _null;
+        return t;
       }
 
       _It next(std::size_t pos) {
@@ -284,7 +257,7 @@ namespace cmdr::queue {
     my_iterator begin() { return my_iterator{_root.get(), 0}; }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
-    void pop_front() { _root->pop(_count); }
+    void pop_front() { pop(); }
     T &front() { return *begin(); }
     std::size_t size() const { return _count; }
     bool empty() const { return _count == 0; }
@@ -293,7 +266,12 @@ namespace cmdr::queue {
       _push(_root, std::move(data));
       _count++;
     }
-    T pop() { return _root->pop(_count); }
+    T pop() {
+      T t = element::pop(_root, _count);
+      if (!_root)
+        _root = std::make_shared<element>();
+      return t;
+    }
     static bool is_null(T const &t) { return t == element::_null; }
 
   public:
-- 
2.43.0


From 637fe00dfffc4947d5c9216702321b3ffc6f0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 47/87] fix: iterating a priority_queue skipped elements,
 front() was not the next to pop

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 79 +++++--------------
 1 file changed, 20 insertions(+), 59 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index bb8268d..948271a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -142,61 +142,20 @@ namespace cmdr::queue {
         return t;
       }
 
-      _It next(std::size_t pos) {
-        if (ReverseComp) {
-          if (pos == (std::size_t) -1) {
-            if (_left) {
-              auto p = _left->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-            if (!_list.empty()) {
-              return {this, 0};
-            }
-            if (_right) {
-              auto p = _right->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-          } else {
-            assert(!_list.empty() && _list.size() >= pos);
-            if (pos < _list.size() - 1)
-              return {this, pos + 1};
-            if (_right) {
-              auto p = _right->next(0);
-              if (p._el != nullptr)
-                return p;
-            }
-          }
-          return _It{};
-        }
-
-        // normal
-        if (pos == (std::size_t) -1) {
-          if (_right) {
-            auto p = _right->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-          if (!_list.empty()) {
-            return {this, 0};
-          }
-          if (_left) {
-            auto p = _left->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-        } else {
-          assert(!_list.empty() && _list.size() >= pos);
-          if (pos < _list.size() - 1)
-            return {this, pos + 1};
-          if (_left) {
-            auto p = _left->next(0);
-            if (p._el != nullptr)
-              return p;
-          }
-        }
-        return _It{};
+      // called on the root: the position following `it` in the order of popping, the first one if `it` is null
+      _It next(_It const &it) {
+        if (it._el != nullptr && it._pos + 1 < it._el->_list.size())
+          return {it._el, it._pos + 1};
+        _It ret;
+        bool passed = it._el == nullptr;
+        auto visit  = [&](element *el) {
+          if (el == it._el)
+            passed = true;
+          else if (passed && ret._el == nullptr && !el->_list.empty())
+            ret = {el, 0};
+        };
+        ReverseComp ? LNR(visit) : RNL(visit);
+        return ret;
       }
 
       static priority_queue::value_type _null;
@@ -209,8 +168,9 @@ namespace cmdr::queue {
       using reference         = priority_queue::value_type &;
 
       my_iterator()           = default;
-      my_iterator(element *ptr, std::size_t pos = (std::size_t) -1)
-          : _it{ptr, pos} {}
+      my_iterator(element *root)
+          : _root{root}
+          , _it{root != nullptr ? root->next(_It{}) : _It{}} {}
 
       reference operator*() const {
         _It &it = const_cast<_It &>(_it);
@@ -233,7 +193,7 @@ namespace cmdr::queue {
       }
       my_iterator &operator++() {
         if (_it._el != nullptr)
-          _it = _it->next(_it._pos);
+          _it = _root->next(_it);
         return *this;
       }
       my_iterator operator++(int) {
@@ -245,6 +205,7 @@ namespace cmdr::queue {
       friend bool operator!=(const my_iterator &a, const my_iterator &b) { return a._it != b._it; };
 
     private:
+      element *_root{};
       _It _it;
     };
 
@@ -254,7 +215,7 @@ namespace cmdr::queue {
         , _comparer{} {}
     virtual ~priority_queue() {}
 
-    my_iterator begin() { return my_iterator{_root.get(), 0}; }
+    my_iterator begin() { return my_iterator{_root.get()}; }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
     void pop_front() { pop(); }
-- 
2.43.0


From 790d49a0a806dca64d0ccef836d909d07e5c075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 48/87] fix: copies of a priority_queue shared their elements

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 948271a..65917cc 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -81,6 +81,11 @@ namespace cmdr::queue {
       std::shared_ptr<element> _right{};
       element()  = default;
       ~element() = default;
+      element(element const &o)
+          : _list(o._list)
+          , _min_value(o._min_value)
+          , _left(o._left ? std::make_shared<element>(*o._left) : nullptr)
+          , _right(o._right ? std::make_shared<element>(*o._right) : nullptr) {}
       element(Container &&l, int m)
           : _list(l)
           , _min_value(m) {}
@@ -214,6 +219,16 @@ namespace cmdr::queue {
         : _root{std::make_shared<element>()}
         , _comparer{} {}
     virtual ~priority_queue() {}
+    priority_queue(priority_queue const &o)
+        : _root{std::make_shared<element>(*o._root)}
+        , _comparer{o._comparer}
+        , _count{o._count} {}
+    priority_queue &operator=(priority_queue const &o) {
+      _root     = std::make_shared<element>(*o._root);
+      _comparer = o._comparer;
+      _count    = o._count;
+      return (*this);
+    }
 
     my_iterator begin() { return my_iterator{_root.get()}; }
     my_iterator end() { return my_iterator(nullptr); }
-- 
2.43.0


From 77c125fa804c9e0dbe430a1b15139b51975ae6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 49/87] fix: file_exists() for a temporary path was declared
 but never defined

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 9fdc148..c3b9de0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -41,7 +41,7 @@ namespace cmdr::path {
   std::filesystem::path merge(std::string pathA, std::string pathB);
 
   bool file_exists(const std::string &filePath);
-  bool file_exists(std::filesystem::path const &&filePath);
+  bool file_exists(std::filesystem::path const &filePath);
 
 } // namespace cmdr::path
 
-- 
2.43.0


From 46f47f2e4221cf37bb0ab3ab67e7271d1de4efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 50/87] fix: is_sparse_file() counted blocks in the wrong unit
 and read garbage for a missing file

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index c3b9de0..e57d65c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -406,7 +406,7 @@ namespace cmdr::path {
   // https://docs.microsoft.com/en-us/cpp/c-runtime-library/reference/stat-functions
   // https://linux.die.net/man/2/stat
   inline hz_stat stat(std::filesystem::path const &name) {
-    hz_stat st;
+    hz_stat st{};
 #ifdef _WIN32
     int result = _stat(name.string().c_str(), &st);
 #else
@@ -442,7 +442,7 @@ namespace cmdr::path {
     return (bhfi.dwFileAttributes & FILE_ATTRIBUTE_SPARSE_FILE);
 #else
     struct stat const st = stat(name);
-    return (st.st_blksize * st.st_blocks < st.st_size);
+    return (st.st_blocks * 512 < st.st_size); // st_blocks counts 512-byte units
 #endif
   }
 
-- 
2.43.0


From c78d7ba2972043204e5429052f407a0d0f82c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 51/87] fix: tmpname_autoincr() gave one name twice when called
 by several threads

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index e57d65c..7b76c8a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -5,6 +5,8 @@
 #ifndef CMDR11_CMDR_PATH_HH
 #define CMDR11_CMDR_PATH_HH
 
+#include <atomic>
+
 #pragma once
 
 #include <chrono>
@@ -489,7 +491,7 @@ namespace cmdr::path {
    */
   inline std::filesystem::path tmpname_autoincr(char const *name_template = nullptr) {
     std::filesystem::path p = fs::temp_directory_path();
-    static int id           = 0;
+    static std::atomic<int> id{0};
     char buf[MAX_PATH];
     snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", id++);
     p /= buf;
-- 
2.43.0


From ec541fe7d6ce29548e615eee7ecf47d6302dd9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 52/87] fix: copying or moving a mmaplib closed foreign
 descriptors and unmapped twice

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 40 ++++++++++---------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..126cf7d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -42,6 +42,10 @@ namespace cmdr::mmap {
 #endif
   }
 
+#if defined(_WIN32)
+#define MAP_FAILED NULL
+#endif
+
   namespace detail {
 
     class mmaplib {
@@ -49,29 +53,21 @@ namespace cmdr::mmap {
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
-      mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
-        return (*this);
-      }
+      // a mapping has one owner: two of them would unmap it twice.
+      mmaplib(mmaplib const &mm) = delete;
+      mmaplib(mmaplib &&mm)
+          : mmaplib() { __take(mm); }
+      mmaplib &operator=(mmaplib const &o) = delete;
       mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __take(o);
+        }
         return (*this);
       }
 
     private:
-      void __copy(mmaplib const &mm) {
-#if defined(_WIN32)
-        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-        ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-#else
-        fd_    = dup2(0, mm.fd_);
-#endif
-        size_ = mm.size_;
-        addr_ = mm.addr_;
-      }
-      void __copy(mmaplib &&mm) {
+      void __take(mmaplib &mm) {
 #if defined(_WIN32)
         hFile_       = mm.hFile_;
         hMapping_    = mm.hMapping_;
@@ -83,7 +79,8 @@ namespace cmdr::mmap {
 #endif
         size_    = mm.size_;
         addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        mm.size_ = 0;
+        mm.addr_ = MAP_FAILED;
       }
 
     public:
@@ -109,11 +106,6 @@ namespace cmdr::mmap {
       void *addr_;
     };
 
-#if defined(_WIN32)
-#define MAP_FAILED NULL
-#endif
-
-
     inline mmaplib::mmaplib()
 #if defined(_WIN32)
         : hFile_(INVALID_HANDLE_VALUE)
-- 
2.43.0


From 6ae0a82a8bad1fad9ce5c930fb8dd8a1216ffb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 53/87] fix: connecting a mmaplib again leaked its previous
 mapping and descriptor

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 126cf7d..39c8a99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -145,6 +145,7 @@ namespace cmdr::mmap {
       // #endif
     }
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
+      cleanup(); // release the previous mapping, if any
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
         std::runtime_error("");
-- 
2.43.0


From c092831c58843a7b8c37215b493648e029664d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 54/87] fix: mmaplib used an uninitialized size when its file
 could not be opened

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 39c8a99..6f4b8c9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -173,7 +173,7 @@ namespace cmdr::mmap {
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-        std::runtime_error("");
+        return; // nothing to map, is_open() is false
       }
       size_ = sb.st_size;
 
-- 
2.43.0


From a69e808c7ec26d181beb0abc57460b93e9244614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 55/87] fix: mmap overwrote and deleted existing files in the
 temporary directory

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 6f4b8c9..f0e8ca2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -14,6 +14,8 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #endif
+#include <cerrno>
+#include <cstdio>
 #include <stdexcept>
 
 #include "cmdr_defs.hh"
@@ -246,14 +248,27 @@ namespace cmdr::mmap {
   class mmap {
   public:
     mmap(std::size_t size) {
-      _tmpname = path::tmpname_autoincr();
+      // never take over (and delete afterwards) a file of somebody else
+      std::FILE *f;
+      do {
+        _tmpname = path::tmpname_autoincr();
+        f        = std::fopen(path::to_filename_h(_tmpname).c_str(), "wbx");
+      } while (f == nullptr && errno == EEXIST);
+      if (f == nullptr) {
+        _tmpname.clear();
+        return;
+      }
+      std::fclose(f);
       io::create_sparse_file(_tmpname, size);
       _mm.connect(writeable, shareable, path::to_filename_h(_tmpname).c_str());
     }
     ~mmap() {
       _mm.close();
-      io::delete_file(_tmpname);
+      if (!_tmpname.empty())
+        io::delete_file(_tmpname);
     }
+    mmap(mmap const &)            = delete;
+    mmap &operator=(mmap const &) = delete;
 
     bool is_open() const { return _mm.is_open(); }
     std::size_t size() const { return _mm.size(); }
-- 
2.43.0


From 63e3d10f4c54c4f61973976beab1abe098482fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 56/87] fix: exec truncated long commands and captured stderr
 of the last statement only

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index d24ba8e..615a369 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -205,11 +205,18 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
 #else // try POSIX
-        tmpfile_stderr = path::tmpname_for_stderr();
-        std::array<char, 512> cmd;
-        std::snprintf(cmd.data(), 512, "%s 2>%s", command, tmpfile_stderr.c_str());
+        tmpfile_stderr = path::tmpname_for_stderr().string();
+        // redirect stderr of the whole command, whatever it consists of
+        std::string cmd = "exec 2>'";
+        for (char c : tmpfile_stderr) {
+          if (c == '\'') cmd += "'\\''";
+          else
+            cmd += c;
+        }
+        cmd += "'\n";
+        cmd += command;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
-        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.data(), "r"), [this](FILE *f) {
+        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
           if (_rc == EXIT_SUCCESS) {        // == 0
           } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
-- 
2.43.0


From acbe3e2f7112392474df53673d014a8e42879976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 57/87] fix: all exec objects shared one file for stderr and
 left it behind

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 615a369..afe7dfb 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -17,8 +17,12 @@
 #include <thread>
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 #include <windows.h>
+#else
+#include <sys/wait.h>
+#include <unistd.h>
 #endif
 #include <array>
+#include <atomic>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -206,6 +210,8 @@ namespace cmdr::process {
 
 #else // try POSIX
         tmpfile_stderr = path::tmpname_for_stderr().string();
+        static std::atomic<unsigned> serial{0};
+        tmpfile_stderr += "." + std::to_string(::getpid()) + "." + std::to_string(serial++);
         // redirect stderr of the whole command, whatever it consists of
         std::string cmd = "exec 2>'";
         for (char c : tmpfile_stderr) {
@@ -238,6 +244,7 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
         _ef = std::ifstream(tmpfile_stderr);
+        std::remove(tmpfile_stderr.c_str()); // the open stream keeps the content
 
         // auto rc = pclose(pipe);
 #endif
-- 
2.43.0


From b15a277317ef6239abb4d1d35e6ed0fed16ee533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 58/87] fix: exec reported success for a command killed by a
 signal

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index afe7dfb..f367fe3 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -252,7 +252,7 @@ namespace cmdr::process {
 
       std::streamsize size() const { return output.length(); }
 
-      int _rc;
+      int _rc = 0;
       std::ifstream _ef;
     };
   } // namespace detail
@@ -279,7 +279,14 @@ namespace cmdr::process {
       this->rdbuf(&buffer);
     }
 
-    int ret_code() const { return buffer._rc / 256; }
+    int ret_code() const {
+#if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
+      return buffer._rc / 256;
+#else
+      // like a shell does: 128+N for a command killed by signal N
+      return WIFSIGNALED(buffer._rc) ? 128 + WTERMSIG(buffer._rc) : WEXITSTATUS(buffer._rc);
+#endif
+    }
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-- 
2.43.0


From 50b157d88d3ec67a76cd2fc8a8e7f223b2d42873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 59/87] fix: printing an empty or already consumed stream made
 the target stream fail

---
 libs/cmdr11/include/cmdr11/cmdr_ios.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_ios.hh b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
index 55d9eb1..e6237aa 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_ios.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
@@ -19,7 +19,10 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
 }
 template<class _CharT, class _Traits = std::char_traits<_CharT>>
 inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::basic_ifstream<_CharT, _Traits> const &ifs) {
-  return os << ifs.rdbuf();
+  // inserting an empty buffer would set failbit of os
+  if (!_Traits::eq_int_type(ifs.rdbuf()->sgetc(), _Traits::eof()))
+    os << ifs.rdbuf();
+  return os;
 }
 // template<class _CharT, class _Traits = std::char_traits<_CharT>>
 // inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::ifstream const &ifs) {
@@ -31,7 +34,7 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
   // ifs >> std::noskipws;
   // std::copy(std::istream_iterator<char>(ifs), std::istream_iterator<char>(), std::ostream_iterator<char>(std::cout));
 
-  if (ifs.rdbuf() != nullptr)
+  if (ifs.rdbuf() != nullptr && !_Traits::eq_int_type(ifs.rdbuf()->sgetc(), _Traits::eof()))
     os << ifs.rdbuf();
   return os;
 }
-- 
2.43.0


From 9357368cb14f2a8ccd32c4427eed5a7d199316ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 60/87] fix: printing an exec twice made the target stream fail

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index f367fe3..7c8f9ec 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -290,7 +290,7 @@ namespace cmdr::process {
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-      if (o.buffer.size())
+      if (o.rdbuf()->sgetc() != std::char_traits<char>::eof())
         os << o.rdbuf();
       return os;
     }
-- 
2.43.0


From 6dd76f40e4b12d41a3b30eda64cf60d45132f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 61/87] fix: ios_state_saver threw for a stream with exceptions
 enabled

---
 libs/cmdr11/include/cmdr11/cmdr_ios.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_ios.hh b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
index e6237aa..3be69c3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_ios.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
@@ -60,7 +60,8 @@ namespace cmdr::io {
   class ios_state_saver {
   public:
     explicit ios_state_saver(std::ostream &os)
-        : ios(os) {
+        : ios(os)
+        , oldState(os.rdbuf()) {
       oldState.copyfmt(os);
     }
     ~ios_state_saver() { ios.copyfmt(oldState); }
@@ -70,7 +71,7 @@ namespace cmdr::io {
 
   private:
     std::ostream &ios;
-    std::ios oldState{nullptr};
+    std::ios oldState; // without a buffer, copyfmt() throws if os has exceptions enabled
   };
 
 } // namespace cmdr::io
-- 
2.43.0


From 3c68eb763f469a2a34a1ca05460239cfad40ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 62/87] fix: the yaml loader ignored CONFIG_FILE, it looked for
 a file named by APP_VERSION

---
 addons/loaders/yaml_loader.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 10a4b77..748b06d 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -124,14 +124,14 @@ namespace cmdr::addons::loaders {
         {
           char* buf1 = nullptr;
           size_t sz = 0;
-          if (_dupenv_s(&buf1, &sz, "APP_VERSION") == 0 && buf1 != nullptr) {
+          if (_dupenv_s(&buf1, &sz, env_var) == 0 && buf1 != nullptr) {
             szbuf1 = buf1;
             free(buf1);
           }
         }
         auto* appver = szbuf1.c_str();
 #else
-        char *appver = std::getenv("APP_VERSION");
+        char *appver = std::getenv(env_var);
 #endif
         if (appver && *appver) {
           auto file = std::string(appver);
-- 
2.43.0


From e0728a49e1906ab101d5a50ad94be821c063b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 63/87] fix: values of a config file lost the type of their
 options, reading them threw

---
 addons/loaders/yaml_loader.hh | 60 ++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 748b06d..5144d24 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -208,22 +208,30 @@ namespace cmdr::addons::loaders {
               ks << pk << '.';
             ks << key;
 
-            auto val = safe_get_value(it->second);
+            cmdr::vars::variable val;
+            if (!get_option_value(c, ks.str(), it->second, val))
+              val = safe_get_value(it->second);
             c.store().set_raw(ks.str().c_str(), val);
             break;
           }
           case YAML::NodeType::Sequence: // ...
           {
             // std::cout << '\n';
-            std::vector<cmdr::vars::variable> vec;
-            for (YAML::const_iterator itz = it->second.begin(); itz != it->second.end(); ++itz)
-              vec.push_back(safe_get_value(*itz));
-
             std::stringstream ks;
             if (!pk.empty())
               ks << pk << '.';
             ks << key;
 
+            cmdr::vars::variable opt_val;
+            if (get_option_value(c, ks.str(), it->second, opt_val)) {
+              c.store().set_raw(ks.str().c_str(), opt_val);
+              break;
+            }
+
+            std::vector<cmdr::vars::variable> vec;
+            for (YAML::const_iterator itz = it->second.begin(); itz != it->second.end(); ++itz)
+              vec.push_back(safe_get_value(*itz));
+
             if (!vec.empty()) {
               cmdr::vars::variable val{vec};
               c.store().set_raw(ks.str().c_str(), val);
@@ -249,6 +257,48 @@ namespace cmdr::addons::loaders {
       }
     }
 
+    /** the option which a key of the store belongs to, or nullptr */
+    static cmdr::opt::arg const *find_option(cmdr::app const &c, std::string const &key) {
+      auto prefix = c.dotted_key() + '.';
+      if (key.compare(0, prefix.size(), prefix) != 0) return nullptr;
+      cmdr::opt::cmd const *cc = &c;
+      auto pos                 = prefix.size();
+      for (auto dot = key.find('.', pos); dot != std::string::npos; pos = dot + 1, dot = key.find('.', pos)) {
+        cc = &(*cc)(key.substr(pos, dot - pos).c_str());
+        if (!cc->valid()) return nullptr;
+      }
+      auto const &a = (*cc)[key.substr(pos).c_str()];
+      return a.valid() ? &a : nullptr;
+    }
+
+    template<typename T>
+    static bool decode_as(YAML::Node const &node, std::type_info const &type, cmdr::vars::variable &val) {
+      if (type != typeid(T)) return false;
+      try {
+        val = node.as<T>();
+        return true;
+      } catch (YAML::Exception const &) {
+        return false; // not a value of that type, take it as it is
+      }
+    }
+
+    /** the value of an option has to be of the type of that option */
+    static bool get_option_value(cmdr::app const &c, std::string const &key, YAML::Node const &node, cmdr::vars::variable &val) {
+      auto const *a = find_option(c, key);
+      if (a == nullptr || !a->default_value()) return false;
+      auto const &type = a->default_value()->type();
+      return decode_as<bool>(node, type, val) ||
+             decode_as<short>(node, type, val) || decode_as<unsigned short>(node, type, val) ||
+             decode_as<int>(node, type, val) || decode_as<unsigned int>(node, type, val) ||
+             decode_as<long>(node, type, val) || decode_as<unsigned long>(node, type, val) ||
+             decode_as<long long>(node, type, val) || decode_as<unsigned long long>(node, type, val) ||
+             decode_as<float>(node, type, val) || decode_as<double>(node, type, val) || decode_as<long double>(node, type, val) ||
+             decode_as<std::string>(node, type, val) ||
+             decode_as<std::vector<int>>(node, type, val) || decode_as<std::vector<long>>(node, type, val) ||
+             decode_as<std::vector<float>>(node, type, val) || decode_as<std::vector<double>>(node, type, val) ||
+             decode_as<std::vector<std::string>>(node, type, val);
+    }
+
     template<typename T>
     static auto extractor(YAML::Node const &node) {
       return YAML::as_if<bool, std::optional<bool>>(node)();
-- 
2.43.0


From df33c783372616a73caf096313c8d1b7fa61fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 64/87] fix: a config file with a list of lists or of maps
 ended the application

---
 addons/loaders/yaml_loader.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 5144d24..524fea4 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -306,6 +306,14 @@ namespace cmdr::addons::loaders {
 
     static cmdr::vars::variable safe_get_value(YAML::Node const &node) {
       cmdr::vars::variable val;
+      if (node.IsSequence()) {
+        std::vector<cmdr::vars::variable> vec;
+        for (auto const &it: node)
+          vec.push_back(safe_get_value(it));
+        return cmdr::vars::variable{vec};
+      }
+      if (node.IsMap())
+        return cmdr::vars::variable{YAML::Dump(node)}; // the store has no maps inside of lists
       if (auto as_bool = extractor<bool>(node); as_bool.has_value()) {
         val = as_bool.value();
       } else if (auto as_short = extractor<short>(node); as_short.has_value()) {
-- 
2.43.0


From 24464e39f325d5cefa11fa244b8dfc174f55b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 65/87] fix: a file given by --config overwrote options given
 before it on the command line

---
 addons/loaders/yaml_loader.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 524fea4..d2abb41 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -208,6 +208,8 @@ namespace cmdr::addons::loaders {
               ks << pk << '.';
             ks << key;
 
+            if (is_given(c, ks.str())) break;
+
             cmdr::vars::variable val;
             if (!get_option_value(c, ks.str(), it->second, val))
               val = safe_get_value(it->second);
@@ -222,6 +224,8 @@ namespace cmdr::addons::loaders {
               ks << pk << '.';
             ks << key;
 
+            if (is_given(c, ks.str())) break;
+
             cmdr::vars::variable opt_val;
             if (get_option_value(c, ks.str(), it->second, opt_val)) {
               c.store().set_raw(ks.str().c_str(), opt_val);
@@ -271,6 +275,12 @@ namespace cmdr::addons::loaders {
       return a.valid() ? &a : nullptr;
     }
 
+    /** an option given before '--config' on the command line wins over the file */
+    static bool is_given(cmdr::app const &c, std::string const &key) {
+      auto const *a = find_option(c, key);
+      return a != nullptr && a->hit_count() > 0;
+    }
+
     template<typename T>
     static bool decode_as(YAML::Node const &node, std::type_info const &type, cmdr::vars::variable &val) {
       if (type != typeid(T)) return false;
-- 
2.43.0


From aecd36cd38726d6e5e9a0839e3deb2bdcf108540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 66/87] fix: a file given by --config overwrote options given
 by environment variables

---
 addons/loaders/yaml_loader.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index d2abb41..4871f62 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -26,6 +26,7 @@
 
 #include <cmdr-cxx.hh>
 
+#include <algorithm>
 #include <cstdlib>
 #include <fstream>
 #include <optional>
@@ -275,10 +276,16 @@ namespace cmdr::addons::loaders {
       return a.valid() ? &a : nullptr;
     }
 
-    /** an option given before '--config' on the command line wins over the file */
+    /** an option given before '--config' on the command line, or by its environment variable, wins over the file */
     static bool is_given(cmdr::app const &c, std::string const &key) {
       auto const *a = find_option(c, key);
-      return a != nullptr && a->hit_count() > 0;
+      if (a == nullptr) return false;
+      if (a->hit_count() > 0) return true;
+      auto env = key; // the variable which app::apply_env_vars() looks at
+      std::replace_if(
+              env.begin(), env.end(), [](char ch) { return ch == '.' || ch == '-'; }, '_');
+      cmdr::string::to_upper(env);
+      return std::getenv(env.c_str()) != nullptr;
     }
 
     template<typename T>
-- 
2.43.0


From f788af4b71d8d893558993b2b1cf7ba17a9c86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 67/87] fix: the constant extensive look-up of a flag ignored
 short titles and aliases written with dashes

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 3798852..ce45626 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -288,10 +288,10 @@ namespace cmdr::opt {
       return (*it).second;
     if (extensive) {
       for (auto itz: _indexed_args) {
-        if (itz.second->title_short() == long_title)
+        if (itz.second->title_short() == s)
           return (itz).second;
         for (auto &k: itz.second->title_aliases()) {
-          if (k == long_title)
+          if (k == s)
             return (itz).second;
         }
       }
-- 
2.43.0


From 5cd674c215cccf7ca42a2467d764cc3dec33f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 68/87] fix: printing a clock left the stream with a zero as
 fill character

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 5b6ce3a..5b29509 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -822,6 +822,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    const auto fill = os.fill();
     if (iom_::has(iom_::fmtflags::ns)) {
       auto const _nsec = in_nsec();
       os << std::put_time(tm, format) << '.' << std::setfill('0')
@@ -838,6 +839,7 @@ namespace cmdr::chrono {
       os << std::put_time(tm, format);
     }
 
+    os.fill(fill);
     return os;
   }
 } // namespace cmdr::chrono
-- 
2.43.0


From 72f20af162d759eefbb259c28f73706218e3d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 69/87] fix: create_sparse_file() reported success for a file
 that it could not create

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 7b76c8a..6978b03 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -395,9 +395,13 @@ namespace cmdr::io {
     std::filesystem::resize_file(name, size);
 #else
     std::ofstream ofs(name, std::ios_base::out | std::ios_base::binary);
-    ofs.seekp(size - 1);
-    char const ch = '\0';
-    ofs.write(&ch, 1);
+    if (size > 0) {
+      ofs.seekp(size - 1);
+      char const ch = '\0';
+      ofs.write(&ch, 1);
+    }
+    ofs.close();
+    if (!ofs) return false;
 #endif
     return true;
   }
-- 
2.43.0


From 434c39987b56cd5e51b1814b14565ff8c0c674e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 70/87] fix: priority_queue with a comparison result wider than
 int does not compile

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 65917cc..f5945af 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -76,7 +76,7 @@ namespace cmdr::queue {
     };
     struct element {
       Container _list;
-      int _min_value;
+      PT _min_value;
       std::shared_ptr<element> _left{};
       std::shared_ptr<element> _right{};
       element()  = default;
@@ -86,10 +86,10 @@ namespace cmdr::queue {
           , _min_value(o._min_value)
           , _left(o._left ? std::make_shared<element>(*o._left) : nullptr)
           , _right(o._right ? std::make_shared<element>(*o._right) : nullptr) {}
-      element(Container &&l, int m)
+      element(Container &&l, PT m)
           : _list(l)
           , _min_value(m) {}
-      element(value_type l, int m)
+      element(value_type l, PT m)
           : _list{}
           , _min_value(m) {
         _list.push_back(std::move(l));
-- 
2.43.0


From ce302f8448766d81942076f2fe29609b25be3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 71/87] fix: an observer changing an unlocked chain while being
 notified invalidates the iteration

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 0432d9d..626a245 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1098,7 +1098,8 @@ namespace cmdr::util {
           if (auto spt = wp.lock())
             spt->observe(event_or_subject);
       } else {
-        for (auto const &wp: _observers)
+        auto const snapshot = _observers;
+        for (auto const &wp: snapshot)
           if (auto spt = wp.lock())
             spt->observe(event_or_subject);
       }
-- 
2.43.0


From 4232907e5767791a1fc3a97e75db20c8138ffc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 72/87] fix: a callback or slot connecting another one while
 being called invalidates the iteration

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 626a245..6a01f5f 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1159,15 +1159,16 @@ namespace cmdr::util {
      * @param event_or_subject
      */
     void emit(subject_t const &event_or_subject) {
-      for (auto &fn: _callbacks)
-        fn(event_or_subject);
+      // a callback may bind further ones, which take part from the next emission on
+      for (std::size_t i = 0, n = _callbacks.size(); i < n; i++)
+        _callbacks[i](event_or_subject);
     }
 
   private:
     void clear() {}
 
   private:
-    std::vector<FN> _callbacks{};
+    std::deque<FN> _callbacks{}; // appending doesn't move the callback being called
   };
 
 } // namespace cmdr::util
@@ -1206,7 +1207,9 @@ namespace cmdr::util {
      * @param event_or_subject
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
-      for (auto &fn: _callbacks) {
+      // a slot may connect further ones, which take part from the next emission on
+      for (std::size_t i = 0, n = _callbacks.size(); i < n; i++) {
+        auto &fn = _callbacks[i];
         // each slot gets its own copy, so that one taking it by value doesn't steal it from the next one
         if constexpr ((std::is_copy_constructible_v<SignalSubjects> && ...))
           fn(static_cast<SignalSubjects>(event_or_subjects)...);
@@ -1221,7 +1224,7 @@ namespace cmdr::util {
     void clear() {}
 
   private:
-    std::vector<FN> _callbacks{};
+    std::deque<FN> _callbacks{}; // appending doesn't move the slot being called
   };
 
 } // namespace cmdr::util
-- 
2.43.0


From 4855177fb3f8f5cd9214535edaf1c4e37518aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 73/87] fix: with longest-first matching off, pick the shortest
 title and not an arbitrary one

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index c3ba16e..e8c8af0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -270,19 +270,12 @@ namespace cmdr {
       // std::unordered_map<std::string, arg *> z{};
       for (auto &itz: z) {
         if (string::has_prefix(title, itz.first)) {
-          if (_longest_first) {
-            if (itz.first.length() > static_cast<std::size_t>(amr.matched_length)) {
-              amr.matched        = true;
-              amr.matched_length = (int) itz.first.length();
-              amr.matched_str    = itz.first;
-              amr.obj            = itz.second;
-            }
-          } else {
+          auto const len = (int) itz.first.length();
+          if (len > 0 && (!amr.matched || (_longest_first ? len > amr.matched_length : len < amr.matched_length))) {
             amr.matched        = true;
-            amr.matched_length = (int) itz.first.length();
+            amr.matched_length = len;
             amr.matched_str    = itz.first;
             amr.obj            = itz.second;
-            break;
           }
         }
       }
-- 
2.43.0


From fa04d1403bb5994077c7789b09a40bd5de0e8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 74/87] fix: reset() also forgets how wide the screens of the
 former definitions were

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh  | 3 ++-
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 60e5ce9..6d5ee99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -107,7 +107,7 @@ namespace cmdr {
     vars::store &store() { return _store; }
 
     app &set_minimal_tab_stop(int width = 43) {
-      _minimal_tab_width = width;
+      _minimal_tab_width = _minimal_tab_stop = width;
       return (*this);
     }
 
@@ -518,6 +518,7 @@ namespace cmdr {
     opt::types::on_post_invoke _global_on_post_invoke;
     bool _treat_unknown_input_command_as_error = true;
     bool _treat_unknown_input_flag_as_error    = true;
+    int _minimal_tab_stop                      = -1; // as configured, the screens widen it to what they need
     opt::types::on_unknown_argument_found _on_unknown_argument_found;
 
     // int _help_hit{};
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index e8c8af0..04f50af 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -742,6 +742,8 @@ namespace cmdr {
     _treat_unknown_input_command_as_error = true;
     _treat_unknown_input_flag_as_error    = true;
 
+    _minimal_tab_width = _minimal_tab_stop;
+
     // clear all commands and flags
 
     _all_args.clear();
-- 
2.43.0


From 220eeadd944df95cc3ebcc5e7cb9c9f4d4c23089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 75/87] fix: printing a boolean value leaves the caller's
 stream in boolalpha mode

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 32086cd..4646970 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -416,7 +416,7 @@ namespace cmdr::vars {
     static R &any_visitors() {
       static R _registry{
           detail::to_any_visitor<void>([](std::ostream &os) { os << "{}"; }),
-          detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << std::boolalpha << x; }),
+          detail::to_any_visitor<bool>([](std::ostream &os, bool x) { os << (x ? "true" : "false"); }),
           detail::to_any_visitor<int>([](std::ostream &os, int x) { os << x; }),
           detail::to_any_visitor<int8_t>([](std::ostream &os, int8_t x) { os << x; }),
           detail::to_any_visitor<int16_t>([](std::ostream &os, int16_t x) { os << x; }),
-- 
2.43.0


From 268cd0c6f0d8f6e45435eb3fbaaa19d62124a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 76/87] fix: the debug dump hides keys of the application that
 merely begin like the cli prefix

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..694e7db 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -266,7 +266,8 @@ namespace cmdr {
       std::function<bool(std::pair<vars::store::key_type, vars::store::node_pointer> const &)>
           filter{};
       if (!allow_cli_sub_key) filter = [&](std::pair<vars::store::key_type, vars::store::node_pointer> const &p) -> bool {
-        return !string::has_prefix(p.first, cli_prefix);
+        // only the cli subtree itself: "app.climate" or "app.client.x" are keys of the application
+        return p.first != cli_prefix && !string::has_prefix(p.first, cli_prefix + ".");
       };
 
       if (tilde_debug_hit_count > 1) {
-- 
2.43.0


From 569ea77c2db4516838299f4264e69311996e54cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 77/87] fix: text without a colour appears in black on black
 where 256 colours are used

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..8e66ac8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -125,13 +125,12 @@ namespace cmdr::terminal::colors {
     // protected:
   public:
     explicit colorize(bool true_color_enabled = true)
-        : _fg{}
-        , _bg{}
+        : _fg{-1}
+        , _bg{-1}
         , _st{}
         , _true_color_enabled(true_color_enabled) {
       _init();
       if (_colors <= 256) _true_color_enabled = false;
-      if (_true_color_enabled) _fg = _bg = -1;
       _colorful = _default_colorful;
     }
 
@@ -790,9 +789,8 @@ namespace cmdr::terminal::colors {
 
     void clear() {
       // NOTE: _colorful, _default_colorful, _colors, _true_color_enabled will be kept.
-      _fg = _bg = {};
+      _fg = _bg = -1;
       _st._i    = 0;
-      if (_true_color_enabled) _fg = _bg = -1;
       _auto_reset = true;
       _cc         = {};
       _ss.clear();
-- 
2.43.0


From 44ac1165ea42515c6cd9fb6098afead8711f5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 78/87] fix: a background colour is emitted in the colour mode
 of the foreground

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 39 +++++++++++----------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 8e66ac8..2b123eb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -136,6 +136,7 @@ namespace cmdr::terminal::colors {
 
   protected:
     int _fg, _bg;
+    bool _fg_rgb{}, _bg_rgb{}; // is the colour an r,g,b triple or a number of the 256-color palette
 
     union _status {
       struct {
@@ -562,24 +563,26 @@ namespace cmdr::terminal::colors {
 
     colorize &fg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _fg                 = (r << 16) | (g << 8) | b;
-      _true_color_enabled = true;
+      _fg     = (r << 16) | (g << 8) | b;
+      _fg_rgb = true;
       return (*this);
     }
     colorize &fg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _fg                 = (int) color256;
-      _true_color_enabled = false;
+      _fg     = (int) color256;
+      _fg_rgb = false;
       return (*this);
     }
     colorize &bg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _bg = (r << 16) | (g << 8) | b;
+      _bg     = (r << 16) | (g << 8) | b;
+      _bg_rgb = true;
       return (*this);
     }
     colorize &bg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _bg = (int) color256;
+      _bg     = (int) color256;
+      _bg_rgb = false;
       return (*this);
     }
 
@@ -739,22 +742,20 @@ namespace cmdr::terminal::colors {
     friend std::ostream &operator<<(std::ostream &os, const colorize &o) {
       if (o._colorful) {
         os << "\033[" << o.modifiers();
-        if (o._true_color_enabled) {
-          if (o._fg != -1) {
+        bool const has_fg = o._fg >= 0 && (o._fg_rgb || o._fg < 256);
+        bool const has_bg = o._bg >= 0 && (o._bg_rgb || o._bg < 256);
+        if (has_fg) {
+          if (o._fg_rgb)
             os << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
-            if (o._bg != -1) os << ';';
-          }
-          if (o._bg != -1) {
-            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
-          }
-        } else {
-          if (o._fg >= 0 && o._fg < 256) {
+          else
             os << "38;5;" << o._fg;
-            if (o._bg >= 0 && o._bg < 256) os << ';';
-          }
-          if (o._bg >= 0 && o._bg < 256) {
+          if (has_bg) os << ';';
+        }
+        if (has_bg) {
+          if (o._bg_rgb)
+            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
+          else
             os << "48;5;" << o._bg;
-          }
         }
         os << 'm';
       }
-- 
2.43.0


From 794cee4b00bd0b187308786dc8a0e1de97c2ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 79/87] fix: the format flags of a stream corrupt the escape
 sequences written to it

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 2b123eb..eae447b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -664,27 +664,27 @@ namespace cmdr::terminal::colors {
     };
 
     friend std::ostream &operator<<(std::ostream &os, const enum style o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (int) o << ";m";
+      if (_default_colorful) os << "\033[" << std::to_string((int) o) << ";m";
       return os;
     }
 
@@ -741,23 +741,24 @@ namespace cmdr::terminal::colors {
     }
     friend std::ostream &operator<<(std::ostream &os, const colorize &o) {
       if (o._colorful) {
-        os << "\033[" << o.modifiers();
+        std::stringstream seq; // of its own: the format flags of os are not for the sequence
+        seq << o.modifiers();
         bool const has_fg = o._fg >= 0 && (o._fg_rgb || o._fg < 256);
         bool const has_bg = o._bg >= 0 && (o._bg_rgb || o._bg < 256);
         if (has_fg) {
           if (o._fg_rgb)
-            os << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
+            seq << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
           else
-            os << "38;5;" << o._fg;
-          if (has_bg) os << ';';
+            seq << "38;5;" << o._fg;
+          if (has_bg) seq << ';';
         }
         if (has_bg) {
           if (o._bg_rgb)
-            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
+            seq << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
           else
-            os << "48;5;" << o._bg;
+            seq << "48;5;" << o._bg;
         }
-        os << 'm';
+        os << "\033[" << seq.str() << 'm';
       }
 
       // text
-- 
2.43.0


From 49666e93e0e4ba6d63cae88189ae2de26dd8a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 80/87] fix: bold, underlined or dim text without a colour
 appears without the attribute

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index eae447b..1f7b3c6 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -758,7 +758,9 @@ namespace cmdr::terminal::colors {
           else
             seq << "48;5;" << o._bg;
         }
-        os << "\033[" << seq.str() << 'm';
+        auto params = seq.str();
+        if (!params.empty() && params.back() == ';') params.pop_back(); // an empty parameter means 0, reset
+        os << "\033[" << params << 'm';
       }
 
       // text
-- 
2.43.0


From d149b15a384220dd203cd7cb5531001131555045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 81/87] fix: set_default_colorful() is undone by the next
 colorize object

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 1f7b3c6..5d2b7ac 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -174,9 +174,10 @@ namespace cmdr::terminal::colors {
 
     bool _colorful;
     static bool _default_colorful;
+    static bool _default_colorful_given; // by set_default_colorful(), the terminal no longer decides
     static int _colors;
     static void _init() {
-      _default_colorful = terminfo::is_colorful();
+      if (!_default_colorful_given) _default_colorful = terminfo::is_colorful();
       _colors           = terminfo::support_colors();
 #if defined(_DEBUG)
       if (!_default_colorful) {
@@ -718,7 +719,8 @@ namespace cmdr::terminal::colors {
      * @param enable_colors
      */
     [[maybe_unused]] static void set_default_colorful(bool enable_colors = true) {
-      _default_colorful = enable_colors;
+      _default_colorful       = enable_colors;
+      _default_colorful_given = true;
       if (enable_colors && _colors == 0) _colors = 256;
     }
     /**
@@ -809,6 +811,7 @@ namespace cmdr::terminal::colors {
   // }
 
   inline bool colorize::_default_colorful{};
+  inline bool colorize::_default_colorful_given{};
   inline int colorize::_colors{};
 
 
-- 
2.43.0


From cc3cb4dba66e1aa57b41bbadd27de7265bd3efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:41 +0000
Subject: [PATCH 82/87] fix: --no-color does not reach the tree screen, the
 dumps of the store and the warnings

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh    | 1 +
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 1 +
 libs/cmdr11/include/cmdr11/cmdr_impl.hh   | 9 +++++++++
 3 files changed, 11 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6d5ee99..44f3f7f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -331,6 +331,7 @@ namespace cmdr {
 
     void prepare();
     void prepare_common_env();
+    void apply_color_mode();
     void prepare_env_vars();
     void load_externals();
     void apply_env_vars();
diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 694e7db..11aec31 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -337,6 +337,7 @@ namespace cmdr {
 
     // _pr_tree(std::cout, &pc.last_matched_cmd());
     auto c                       = cmdr::terminal::colors::colorize::create();
+    if (is_no_color()) c.enable(false);
     pc.last_matched_cmd().print_commands(std::cout, c, _minimal_tab_width, true, show_hidden_items, sc_mode, 0);
     return 0;
   }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 04f50af..ab0f63b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -503,6 +503,7 @@ namespace cmdr {
     }
 
     _store.set_raw(key.c_str(), *val);
+    if (key == _long + ".no-color") apply_color_mode();
 
     for (auto &cb: _on_arg_matched) {
       if (cb) {
@@ -776,6 +777,14 @@ namespace cmdr {
     prepare_env_vars();
     load_externals();
     apply_env_vars();
+    apply_color_mode();
+  }
+
+  // --no-color, also by its environment variables, concerns all what is printed
+  inline void app::apply_color_mode() {
+    auto const &no_color = std::as_const(*this).get_for_cli("no-color");
+    bool const plain     = no_color.type() == typeid(bool) && no_color.as<bool>();
+    vars::store::_c.enable(terminal::colors::colorize::create().is_colorful() && !plain);
   }
 
   inline void app::prepare_common_env() {
-- 
2.43.0


From 59a854b8d6d2d4f340a00d6c9b6c7d62a15d4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:04 +0000
Subject: [PATCH 83/87] fix: curry() keeps references to temporary copies of
 named arguments

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 6a01f5f..21568c4 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -676,10 +676,11 @@ namespace cmdr::util::cool {
   struct curry_t {
     template<typename... Args>
     constexpr decltype(auto) operator()(Args &&...a) const {
-      curry_t<F, Arguments..., Args...> cur = {f_,
-                                               std::tuple_cat(args_, std::make_tuple(std::forward<Args>(a)...))};
+      // the arguments are copied: a reference would dangle as soon as the tuple made here is gone
+      curry_t<F, Arguments..., std::decay_t<Args>...> cur = {f_,
+                                                             std::tuple_cat(args_, std::make_tuple(std::forward<Args>(a)...))};
 
-      if constexpr (!can_invoke<F, Arguments..., Args...>::value) {
+      if constexpr (!can_invoke<F, Arguments..., std::decay_t<Args>...>::value) {
         return cur;
       } else {
         return cur();
-- 
2.43.0


From 345dfad5706285b124539dea74aaa9c0dbdd98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 84/87] fix: threads that log at the same time race for the
 buffer of gmtime()

---
 libs/cmdr11/include/cmdr11/cmdr_log.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_log.hh b/libs/cmdr11/include/cmdr11/cmdr_log.hh
index 570a42d..683ede2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_log.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_log.hh
@@ -39,8 +39,14 @@ namespace cmdr::log {
         auto _tm  = &tm_;
         time_t vt = time(nullptr);
         gmtime_s(_tm, &vt);
-#else
+#elif defined(_WIN32)
         auto *_tm = cross::gmtime();
+#else
+        // not the static buffer of gmtime(): threads log at the same time
+        struct tm tm_ {};
+        auto *_tm       = &tm_;
+        time_t const vt = cross::time();
+        ::gmtime_r(&vt, _tm);
 #endif
         std::strftime(time_buf, sizeof time_buf, "%D %T", _tm);
 
-- 
2.43.0


From 4babf71d9e66ce8b0fad72ca6a720a24d9a5571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:52 +0000
Subject: [PATCH 85/87] fix: threads that convert or print times at the same
 time race for the buffers of gmtime() and localtime()

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 47 +++++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 5b29509..b834a4a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -538,6 +538,23 @@ namespace cmdr::chrono {
     return Clock::from_time_t(std::mktime(&tm));
   }
 
+#if !defined(_WIN32) && !defined(_WIN64)
+  namespace detail {
+    // not the static buffers of gmtime() and localtime(): threads convert times at the same time
+    inline std::tm gmtime(std::time_t t) {
+      std::tm tm{};
+      ::gmtime_r(&t, &tm);
+      return tm;
+    }
+    inline std::tm localtime(std::time_t t) {
+      std::tm tm{};
+      ::tzset();
+      ::localtime_r(&t, &tm);
+      return tm;
+    }
+  } // namespace detail
+#endif
+
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_point_2_tm(typename Clock::time_point const tp) {
     auto time_now = Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(tp));
@@ -551,7 +568,7 @@ namespace cmdr::chrono {
       }
       return tm1;
 #else
-      return *std::gmtime(&time_now);
+      return detail::gmtime(time_now);
 #endif
     }
 #if defined(_WIN32) || defined(_WIN64)
@@ -559,16 +576,20 @@ namespace cmdr::chrono {
     localtime_s(&tm1, &time_now);
     return tm1;
 #else
-    return *std::localtime(&time_now);
+    return detail::localtime(time_now);
 #endif
   }
 
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_t_2_tm(time_t t) {
+#if defined(_WIN32) || defined(_WIN64)
     if (GMT) {
       return *std::gmtime(&t);
     }
     return *std::localtime(&t);
+#else
+    return GMT ? detail::gmtime(t) : detail::localtime(t);
+#endif
   }
 
 } // namespace cmdr::chrono
@@ -582,6 +603,9 @@ namespace cmdr::chrono {
     // using tp = std::chrono::time_point<_Clock, _Duration>;
     std::time_t tt = _Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(time));
     std::tm *tm{nullptr};
+#if !defined(_WIN32) && !defined(_WIN64)
+    std::tm tm_;
+#endif
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
@@ -594,7 +618,8 @@ namespace cmdr::chrono {
         tm = &tm1;
       }
 #else
-      tm = std::gmtime(&tt); // GMT (UTC)
+      tm_ = detail::gmtime(tt); // GMT (UTC)
+      tm  = &tm_;
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -603,7 +628,8 @@ namespace cmdr::chrono {
       localtime_s(&tm1, &now);
       tm = &tm1;
 #else
-      tm = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm_ = detail::localtime(tt); // Locale time-zone, usually UTC by default.
+      tm  = &tm_;
 #endif
     }
     // else
@@ -791,6 +817,9 @@ namespace cmdr::chrono {
     // using tp = std::chrono::time_point<_Clock, _Duration>;
     // std::time_t tt;
     std::tm *tm;
+#if !defined(_WIN32) && !defined(_WIN64)
+    std::tm tm_;
+#endif
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
@@ -806,7 +835,8 @@ namespace cmdr::chrono {
       }
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::gmtime(&tt); // GMT (UTC)
+      tm_           = detail::gmtime(tt); // GMT (UTC)
+      tm            = &tm_;
 #endif
     } else { // if (iom_::has(iom_::fmtflags::local))
 #if defined(_WIN32) || defined(_WIN64)
@@ -816,7 +846,8 @@ namespace cmdr::chrono {
       tm = &tm1;
 #else
       const auto tt = std::chrono::system_clock::to_time_t(_now);
-      tm            = std::localtime(&tt); // Locale time-zone, usually UTC by default.
+      tm_           = detail::localtime(tt); // Locale time-zone, usually UTC by default.
+      tm            = &tm_;
 #endif
     }
     // else
@@ -900,7 +931,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::gmtime(&time_now);
+      tm            = detail::gmtime(time_now);
 #endif
     } else {
 #if defined(_WIN32) || defined(_WIN64)
@@ -909,7 +940,7 @@ namespace cmdr::chrono {
 #else
       auto now      = Clock::now();
       auto time_now = Clock::to_time_t(now);
-      tm            = *std::localtime(&time_now);
+      tm            = detail::localtime(time_now);
 #endif
     }
 
-- 
2.43.0


From 847940d1ee25dbdf340ccf0b749e77e452d86e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 86/87] fix: help and extensive look-ups take a short title for
 another command's alias

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index ce45626..3ec4e28 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -331,14 +331,17 @@ namespace cmdr::opt {
       return *cc;
     }
     if (extensive) {
+      // as on the command line: an alias first, then a short title
       for (const auto &itz: _indexed_commands) {
-        if (itz.second->title_short() == s)
-          return *((itz).second);
         for (auto &k: itz.second->title_aliases()) {
           if (k == s)
             return *((itz).second);
         }
       }
+      for (const auto &itz: _indexed_commands) {
+        if (itz.second->title_short() == s)
+          return *((itz).second);
+      }
     }
     return null_command();
   }
@@ -350,14 +353,17 @@ namespace cmdr::opt {
       return cc;
     }
     if (extensive) {
+      // as on the command line: an alias first, then a short title
       for (const auto &itz: _indexed_commands) {
-        if (itz.second->title_short() == long_title)
-          return (itz).second;
         for (auto &k: itz.second->title_aliases()) {
           if (k == long_title)
             return (itz).second;
         }
       }
+      for (const auto &itz: _indexed_commands) {
+        if (itz.second->title_short() == long_title)
+          return (itz).second;
+      }
     }
     return nullptr;
   }
-- 
2.43.0


From bee6010784bcb553ad2b52a80b8bbe2abf250161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 87/87] fix: the names DeepPink1_198 and DeepPink1_199 stand
 for the colours after theirs

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 5d2b7ac..5daae6c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -493,7 +493,7 @@ namespace cmdr::terminal::colors {
       Red1,
       DeepPink2,
       DeepPink1,
-      DeepPink1_198,
+      DeepPink1_198 = 198,
       DeepPink1_199,
 
       Magenta2_200 = 200,
-- 
2.43.0

