From 9bd705045c62c6cf87f8160e15efef7c38dfdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 01/61] fix: looking up a command by its short title no longer
 overwrites the long-title index

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..a9b8c72 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -244,9 +244,9 @@ namespace cmdr {
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      opt::types::indexed_commands &si = c._short_commands;
+      auto const &it1                  = si.find(pc.title);
+      if (it1 != si.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From 21934c4386dae465c15ef1b508293b0f486d18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 02/61] fix: count a hit only on the flag finally matched, not
 on the shorter candidates

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index a9b8c72..d4746aa 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -275,17 +275,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              amr.obj            = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            amr.obj            = itz.second;
             break;
           }
         }
@@ -296,6 +292,12 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+
+    // only the finally selected flag is hit
+    if (amr.matched)
+      amr.obj->update_hit_count(amr.matched_str, 1,
+                                is_long || amr.obj->hit_long(),
+                                is_special || amr.obj->hit_special());
     return amr;
   }
 
-- 
2.43.0


From 007b46468ac0547bfbc6a0da99dd600bf98009c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 03/61] fix: store.has(prefix, key) tests the prefixed key

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From 1dab347032e5a4e15b174c7d84c19c70b54ff53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 04/61] fix: choosing a flag of a toggle group turns off its
 siblings

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index d4746aa..b576bf0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -495,11 +495,12 @@ namespace cmdr {
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
+      auto const &cck = cc->dotted_key(); // the siblings and the group live under the owner command
       auto const &k   = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
-        _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
+        if (o != a)
+          _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
       }
 
       cc->toggle_group_set(k, a);
-- 
2.43.0


From f9742a52bf9eac8f4628e1138355df846b391a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 05/61] fix: storing a variable into an existing node keeps the
 underlying value, not a nested wrapper

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..331fbbf 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -152,6 +152,9 @@ namespace cmdr::vars {
     }
     void emplace(std::any &&o) { _value.swap(o); }
     void emplace(std::any const &o) { _value = o; }
+    void emplace(std::any &o) { _value = o; }
+    void emplace(variable const &o) { _value = o._value; }
+    void emplace(variable &o) { _value = o._value; }
 
     [[nodiscard]] target_type const &underlying_value() const { return _value; }
     target_type &underlying_value() { return _value; }
-- 
2.43.0


From f16362e94a2f10e21138956cb648feae72adb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 06/61] fix: app::reset() drops the toggle groups of the
 removed flags too

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index b576bf0..047d43b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -759,6 +759,8 @@ namespace cmdr {
     _indexed_commands.clear();
     _short_commands.clear();
     _long_commands.clear();
+    _toggle_groups.clear();
+    _hit_toggle_groups.clear();
     _last_added_command = nullptr;
     _last_added_arg     = nullptr;
     _on_command_hit     = nullptr;
-- 
2.43.0


From 3fd7f4f0431a7575fee8d68c74bfb1138584546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 07/61] fix: strip_quotes() removes the trailing quotes too and
 never reads outside the string

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..51836ce 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -440,11 +440,10 @@ namespace cmdr::string {
 
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    std::size_t p1 = 0, p2 = str.length();
+    while (p1 < p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2 - 1] == '"' || str[p2 - 1] == '\'')) p2--;
+    return str.substr(p1, p2 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From 78fec4977448163e302d29de5b6d346e9e883081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 08/61] fix: parsing an array neither loses its first element
 nor duplicates its last one

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 30 +++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 331fbbf..565a819 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -295,24 +295,22 @@ namespace cmdr::vars {
 
     template<class T>
     static bool parse_array(std::istream &is, std::vector<T> &a) {
-      bool ok;
-      char ch;
-      std::string s;
-      is >> ch;
-      if (ch != '[') s += ch;
-      while ((ok = string::read_until(is, s, ",")) == true) {
-        std::stringstream ss(s);
-        T t;
-        ss >> t;
+      std::string s, part;
+      std::getline(is, s, '\0');
+      std::stringstream ss(string::strip(s, "[", "]"));
+      while (std::getline(ss, part, ',')) {
+        T t{};
+        if constexpr (std::is_same_v<T, std::string>) {
+          t = part;
+        } else {
+          std::stringstream ps(part);
+          if (!(ps >> t)) {
+            is.setstate(std::ios_base::failbit);
+            return false;
+          }
+        }
         a.push_back(t);
       }
-
-      std::getline(is, s);
-      s = string::strip(s, "", "]");
-      T t;
-      std::stringstream ss(s);
-      ss >> t;
-      a.push_back(t);
       return true;
     }
 
-- 
2.43.0


From 05b4a43077bd0e633a7cae5b1bcb13d47d2f8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 09/61] fix: parse_bool() understands all of its documented
 words (on/off, ...) and fails on the others

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 111 +----------------------
 1 file changed, 5 insertions(+), 106 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 565a819..1caa937 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -329,118 +329,17 @@ namespace cmdr::vars {
      * @return
      */
     static bool parse_bool(std::istream &is, bool &x) {
-      int ch;
-      ch = is.peek();
-      if (ch == '0') {
-        x = false;
-        is >> ch;
-        return true;
-      }
-      if (ch == '1') {
+      std::string s;
+      while (std::isalnum(is.peek())) s += (char) std::tolower(is.get());
+      if (s == "1" || s == "t" || s == "y" || s == "true" || s == "yes" || s == "on") {
         x = true;
-        is >> ch;
         return true;
       }
-
-      if (ch == 't' || ch == 'T') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'r' || ch == 'R') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'u' || ch == 'U') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 'e' || ch == 'E') {
-              is >> ch;
-              x = true;
-              return true;
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'y' || ch == 'Y') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'e' || ch == 'E') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 's' || ch == 'S') {
-            is >> ch;
-            x = true;
-            return true;
-          }
-          is.unget();
-        } else {
-          x = true;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'f' || ch == 'F') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'a' || ch == 'A') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'l' || ch == 'L') {
-            is >> ch;
-            ch = is.peek();
-            if (ch == 's' || ch == 'S') {
-              is >> ch;
-              ch = is.peek();
-              if (ch == 'e' || ch == 'E') {
-                is >> ch;
-                x = false;
-                return true;
-              }
-              is.unget();
-            }
-            is.unget();
-          }
-          is.unget();
-        } else {
-          x = false;
-          return true;
-        }
-        is.unget();
-      } else if (ch == 'n' || ch == 'N') {
-        is >> ch;
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'o' || ch == 'O') {
-          is >> ch;
-          x = false;
-          return true;
-        }
+      if (s == "0" || s == "f" || s == "n" || s == "false" || s == "no" || s == "off") {
         x = false;
         return true;
-
-      } else if (ch == 'o' || ch == 'O') {
-        is >> ch;
-        ch = is.peek();
-        if (ch == 'n' || ch == 'N') {
-          is >> ch;
-          x = true;
-          return true;
-        }
-        if (ch == 'f' || ch == 'F') {
-          is >> ch;
-          ch = is.peek();
-          if (ch == 'f' || ch == 'F') {
-            is >> ch;
-            x = false;
-            return true;
-          }
-          is.unget();
-        }
-        is.unget();
       }
+      is.setstate(std::ios_base::failbit);
       return false;
     }
 
-- 
2.43.0


From 69c99f2453f2c38aceea49ca9f5337b8f5def9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 10/61] fix: a flag value is taken as a whole or, if it cannot
 be parsed, not at all

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh  |  1 +
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 41 +++++++++++++++++++------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..f5a15f4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -307,6 +307,7 @@ namespace cmdr {
     static string_array remain_args(char *argv[], int i, int argc);
 
     opt::Action process_command(opt::types::parsing_context &pc, int argc, char *argv[]);
+    static bool parse_value(std::string const &text, vars::variable &v, std::size_t &read);
     opt::Action process_flag(opt::types::parsing_context &pc, int argc, char *argv[], int leading_chars, std::function<arg_matching_result(opt::types::parsing_context &)> const &matcher);
     opt::Action process_special_flag(opt::types::parsing_context &pc, int argc, char *argv[]);
     opt::Action process_long_flag(opt::types::parsing_context &pc, int argc, char *argv[]);
diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 047d43b..d757c61 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -80,6 +80,28 @@ namespace cmdr {
     return opt::Action::Continue;
   }
 
+  /**
+   * @brief parse the text (the leading part of it, at least) into v.
+   * @return false if the text cannot be parsed, and v is untouched.
+   */
+  inline bool app::parse_value(std::string const &text, vars::variable &v, std::size_t &read) {
+    if (v.type() == typeid(std::string) || v.type() == typeid(const_chars)) {
+      // a string takes the whole text, including the spaces
+      v.emplace(std::string(text));
+      read = text.length();
+      return true;
+    }
+
+    vars::variable parsed{v};
+    std::stringstream sst(text);
+    sst >> parsed;
+    if (sst.fail()) return false;
+    read = sst.eof() ? text.length() : static_cast<std::size_t>(sst.tellg());
+    if (read == 0 && !text.empty()) return false;
+    v.emplace(parsed);
+    return true;
+  }
+
   inline opt::Action
   app::process_flag(opt::types::parsing_context &pc, int argc, char *argv[], int leading_chars,
                     std::function<arg_matching_result(opt::types::parsing_context &)> const &matcher) {
@@ -110,6 +132,8 @@ namespace cmdr {
         // try solving the following input as value of this matched arg.
         auto remains          = pc.title.substr(pc.pos + amr.matched_length);
         auto remains_orig_len = remains.length();
+        auto leading_len      = (std::size_t) (remains[0] == '=' ? 1 : 0);
+        while (leading_len < remains_orig_len && (remains[leading_len] == '"' || remains[leading_len] == '\'')) leading_len++;
         if (remains[0] == '=') {
           remains = remains.substr(1);
         }
@@ -119,27 +143,24 @@ namespace cmdr {
           extra_argv = true;
         }
 
-        std::stringstream sst(remains);
         opt::arg::var_type &val = amr.obj->default_value();
-        auto xb                 = sst.tellg();
-        sst >> *val.get();
-        auto xe      = sst.tellg();
-        int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
+        std::size_t read{};
+        value_parsed = parse_value(remains, *val.get(), read);
         if (!value_parsed) {
           if (extra_argv) {
             --pc.index; // restore the parsing pointer
           }
-        } else if (read > 0) {
-          amr.matched_length += read;
-        } else if (!extra_argv) {
+        } else if (extra_argv || read >= remains.length()) {
           amr.matched_length += (int) remains_orig_len;
+        } else {
+          amr.matched_length += (int) (leading_len + read);
         }
 
         pc.add_matched_arg(amr.obj, val);
         cmdr_verbose_debug("   -> value: %s", val->as_string().c_str());
 
-        get_app().on_arg_matched(amr.obj, val);
+        if (value_parsed)
+          get_app().on_arg_matched(amr.obj, val);
 
       } else if (typ == typeid(bool)) {
         pc.add_matched_arg(amr.obj);
-- 
2.43.0


From 16d4e3811f6474bcdcfd3e10094105f69707997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 11/61] fix: an environment variable is taken as a whole string
 value, and ignored if it cannot be parsed

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index d757c61..5f59ba2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -841,7 +841,8 @@ namespace cmdr {
 #else
       char *ptr = std::getenv(ks.c_str());
       if (ptr != nullptr) {
-        std::stringstream(ptr) >> (*val.second);
+        std::size_t read{};
+        parse_value(ptr, *val.second, read);
         cmdr_verbose_debug("      ENV[%s (%s)] => %s", ks.c_str(), val.first.c_str(), ptr);
       }
 #endif
@@ -867,7 +868,8 @@ namespace cmdr {
         if (ptr != nullptr) {
           auto dk = a.dotted_key();
           auto &v = _store.get_raw(dk);
-          std::stringstream(ptr) >> v;
+          std::size_t read{};
+          parse_value(ptr, v, read);
           cmdr_verbose_debug("      ENV[%s (%s)] => %s / %s", ev.c_str(), dk.c_str(), ptr, _store.get_raw(dk).as_string().c_str());
           a.default_value(v);
           a.update_hit_count_from_env(ev, 1);
-- 
2.43.0


From 953b84582f238a6946e820be354bd52db1f90457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/61] fix: front() and the iterators of priority_queue follow
 the popping order

---
 .../include/cmdr11/cmdr_priority_queue.hh     | 90 +++++++------------
 1 file changed, 31 insertions(+), 59 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..05cfd95 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -169,61 +169,22 @@ namespace cmdr::queue {
         return _null;
       }
 
-      _It next(std::size_t pos) {
-        if (ReverseComp) {
-          if (pos == (std::size_t) -1) {
-            if (_left) {
-              auto p = _left->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-            if (!_list.empty()) {
-              return {this, 0};
-            }
-            if (_right) {
-              auto p = _right->next(pos);
-              if (p._el != nullptr)
-                return p;
-            }
-          } else {
-            assert(!_list.empty() && _list.size() >= pos);
-            if (pos < _list.size() - 1)
-              return {this, pos + 1};
-            if (_right) {
-              auto p = _right->next(0);
-              if (p._el != nullptr)
-                return p;
-            }
-          }
-          return _It{};
-        }
-
-        // normal
-        if (pos == (std::size_t) -1) {
-          if (_right) {
-            auto p = _right->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-          if (!_list.empty()) {
-            return {this, 0};
-          }
-          if (_left) {
-            auto p = _left->next(pos);
-            if (p._el != nullptr)
-              return p;
-          }
-        } else {
-          assert(!_list.empty() && _list.size() >= pos);
-          if (pos < _list.size() - 1)
-            return {this, pos + 1};
-          if (_left) {
-            auto p = _left->next(0);
-            if (p._el != nullptr)
-              return p;
-          }
+      /**
+       * @brief find the first non-empty element behind `cur`, in popping order.
+       * @param cur nullptr means to find the very first one. It will be reset
+       * to nullptr once it was met.
+       */
+      element *first_after(element *&cur) {
+        auto const &ahead  = ReverseComp ? _left : _right;
+        auto const &behind = ReverseComp ? _right : _left;
+        if (ahead) {
+          if (auto *p = ahead->first_after(cur)) return p;
         }
-        return _It{};
+        if (cur == this)
+          cur = nullptr;
+        else if (cur == nullptr && !_list.empty())
+          return this;
+        return behind ? behind->first_after(cur) : nullptr;
       }
 
       static priority_queue::value_type _null;
@@ -236,8 +197,8 @@ namespace cmdr::queue {
       using reference         = priority_queue::value_type &;
 
       my_iterator()           = default;
-      my_iterator(element *ptr, std::size_t pos = (std::size_t) -1)
-          : _it{ptr, pos} {}
+      explicit my_iterator(element *root)
+          : _root{root} { advance(nullptr); }
 
       reference operator*() const {
         _It &it = const_cast<_It &>(_it);
@@ -259,8 +220,12 @@ namespace cmdr::queue {
         return ptr;
       }
       my_iterator &operator++() {
-        if (_it._el != nullptr)
-          _it = _it->next(_it._pos);
+        if (_it._el != nullptr) {
+          if (_it._pos + 1 < _it._el->_list.size())
+            _it._pos++;
+          else
+            advance(_it._el);
+        }
         return *this;
       }
       my_iterator operator++(int) {
@@ -272,6 +237,13 @@ namespace cmdr::queue {
       friend bool operator!=(const my_iterator &a, const my_iterator &b) { return a._it != b._it; };
 
     private:
+      void advance(element *cur) {
+        auto *el = _root ? _root->first_after(cur) : nullptr;
+        _it      = el ? _It{el, 0} : _It{};
+      }
+
+    private:
+      element *_root{};
       _It _it;
     };
 
@@ -281,7 +253,7 @@ namespace cmdr::queue {
         , _comparer{} {}
     virtual ~priority_queue() {}
 
-    my_iterator begin() { return my_iterator{_root.get(), 0}; }
+    my_iterator begin() { return my_iterator{_root.get()}; }
     my_iterator end() { return my_iterator(nullptr); }
     void push_back(T const &data) { push(data); }
     void pop_front() { _root->pop(_count); }
-- 
2.43.0


From 1025365433d725515ffdf1984540cf25e6d7c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 13/61] fix: the pre-order and reverse in-order walks of
 priority_queue recurse with the same order

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 05cfd95..433a10d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -93,9 +93,9 @@ namespace cmdr::queue {
       void NLR(std::function<void(element *)> const &fn) {
         fn(this);
         if (_left)
-          _left->LNR(fn);
+          _left->NLR(fn);
         if (_right)
-          _right->LNR(fn);
+          _right->NLR(fn);
       }
       // in-order traversal
       void LNR(std::function<void(element *)> const &fn) {
@@ -116,10 +116,10 @@ namespace cmdr::queue {
       // reverse in-order
       void RNL(std::function<void(element *)> const &fn) {
         if (_right)
-          _right->LRN(fn);
+          _right->RNL(fn);
         fn(this);
         if (_left)
-          _left->LRN(fn);
+          _left->RNL(fn);
       }
 
       T pop(std::size_t &count) {
-- 
2.43.0


From 0416d15f69896a19ba3fbf7c9f3fa1dbcd785666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 14/61] fix: pushing into a partially drained priority_queue
 keeps the priority order

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 433a10d..4e2ee32 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -278,6 +278,14 @@ namespace cmdr::queue {
 
   private:
     void _push(std::shared_ptr<element> &at, T data) {
+      // a drained element has nothing to be compared with, so it must be
+      // replaced by its remained child (what is ahead of it was drained too).
+      while (at->_list.empty()) {
+        auto rest = ReverseComp ? at->_right : at->_left;
+        if (!rest) break;
+        at = rest;
+      }
+
       PT l{}, r{};
       if (!at->_list.empty()) {
         for (auto const &v: at->_list) {
-- 
2.43.0


From 1c32c4aaa4607f8f4e3b7973cd9e61de1d1aec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 15/61] fix: wait_for() without a timeout really waits for the
 condition

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..96d5a03 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -100,7 +100,13 @@ namespace cmdr::pool {
       return _cv.wait_for(lk, rel_time, _p);
     }
 
-    bool wait_for() { return wait_for(std::chrono::hours::max()); }
+    /**
+     * @brief wait for Pred condition matched, without timeout.
+     */
+    bool wait_for() {
+      wait(); // hours::max() can't be used here since it overflows any clock
+      return true;
+    }
 
     /**
      * @brief wait_until causes the current thread to block until the
@@ -295,7 +301,7 @@ namespace cmdr::pool {
     }
 
     bool wait_for() {
-      return wait_for(std::chrono::hours::max());
+      return conditional_wait_for_bool::wait_for();
     }
 
     /**
-- 
2.43.0


From 5377688e2b4d26b4898911824869456305a672ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 16/61] fix: concurrent add_observer()/remove_observer() calls
 never lose each other's update

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..a4f85c4 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,9 +1013,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1029,9 +1029,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1045,6 +1045,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1052,7 +1053,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
-- 
2.43.0


From c7d73f1ad1d5932e09eb519711387450ccb9828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 17/61] fix: every slot connected to a signal receives the
 emitted subjects; signal::operator() compiles

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a4f85c4..5948707 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1201,14 +1201,23 @@ namespace cmdr::util {
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
       for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+        fn(hand_over<SignalSubjects>(event_or_subjects)...);
       return (*this);
     }
-    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
+    signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(std::forward<SignalSubjects>(event_or_subjects)...); }
 
   private:
     void clear() {}
 
+    // each slot gets its own copy, so that nobody gets a moved-from subject
+    template<typename T>
+    static T hand_over(T &subject) {
+      if constexpr (std::is_copy_constructible_v<T>)
+        return static_cast<T>(subject);
+      else
+        return std::move(subject);
+    }
+
   private:
     std::vector<FN> _callbacks{};
   };
-- 
2.43.0


From 7ecd14542fd3d76eae3361a529d63d1e41e6e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 18/61] fix: the post-invoke handlers run once only, even if
 one of them throws

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 32 +++++++++++--------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 5f59ba2..2eb235f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -569,6 +569,16 @@ namespace cmdr {
   inline int app::invoke_command(opt::cmd &c, string_array const &remain_args, opt::types::parsing_context &pc) {
     UNUSED(pc, c);
 
+    // the post handlers are always invoked after on_invoke, and invoked once.
+    auto post = [&]() {
+      if (c.on_post_invoke()) {
+        c.on_post_invoke()(c, remain_args);
+      }
+      if (_global_on_post_invoke) {
+        _global_on_post_invoke(c, remain_args);
+      }
+    };
+
     int rc{0};
     if (_global_on_pre_invoke) {
       rc = _global_on_pre_invoke(c, remain_args);
@@ -593,26 +603,12 @@ namespace cmdr {
         }
       }
 
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
     } catch (...) {
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
-      std::exception_ptr eptr = std::current_exception();
-      if (eptr) {
-        std::rethrow_exception(eptr);
-      }
+      post();
+      throw;
     }
+
+    post();
     return rc;
   }
 
-- 
2.43.0


From e9acfe8f03242a704760f96081988d62cc82d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 19/61] fix: refuse negative texts for unsigned values instead
 of wrapping them around

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 33 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 1caa937..db42fde 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -304,7 +304,12 @@ namespace cmdr::vars {
           t = part;
         } else {
           std::stringstream ps(part);
-          if (!(ps >> t)) {
+          bool ok;
+          if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, bool>)
+            ok = parse_unsigned(ps, t);
+          else
+            ok = !(ps >> t).fail();
+          if (!ok) {
             is.setstate(std::ios_base::failbit);
             return false;
           }
@@ -314,6 +319,20 @@ namespace cmdr::vars {
       return true;
     }
 
+    /**
+     * @brief an unsigned integer: unlike with the stream extractor, a negative number is refused
+     * and not wrapped around.
+     */
+    template<class T>
+    static bool parse_unsigned(std::istream &is, T &x) {
+      is >> std::ws;
+      if (is.good() && is.peek() == '-')
+        is.setstate(std::ios_base::failbit);
+      else
+        is >> x;
+      return !is.fail();
+    }
+
     static bool parse_void(std::istream &is) {
       std::string tmp;
       if (is.peek() == '{') {
@@ -354,15 +373,15 @@ namespace cmdr::vars {
             detail::from_any_visitor<int16_t>([](std::istream &is, int16_t &x) { is >> x; }),
             detail::from_any_visitor<int32_t>([](std::istream &is, int32_t &x) { is >> x; }),
             detail::from_any_visitor<int64_t>([](std::istream &is, int64_t &x) { is >> x; }),
-            detail::from_any_visitor<unsigned>([](std::istream &is, unsigned &x) { is >> x; }),
+            detail::from_any_visitor<unsigned>([](std::istream &is, unsigned &x) { parse_unsigned(is, x); }),
             detail::from_any_visitor<uint8_t>([](std::istream &is, uint8_t &x) { is >> x; }),
-            detail::from_any_visitor<uint16_t>([](std::istream &is, uint16_t &x) { is >> x; }),
-            detail::from_any_visitor<uint32_t>([](std::istream &is, uint32_t &x) { is >> x; }),
-            detail::from_any_visitor<uint64_t>([](std::istream &is, uint64_t &x) { is >> x; }),
+            detail::from_any_visitor<uint16_t>([](std::istream &is, uint16_t &x) { parse_unsigned(is, x); }),
+            detail::from_any_visitor<uint32_t>([](std::istream &is, uint32_t &x) { parse_unsigned(is, x); }),
+            detail::from_any_visitor<uint64_t>([](std::istream &is, uint64_t &x) { parse_unsigned(is, x); }),
             detail::from_any_visitor<long>([](std::istream &is, long &x) { is >> x; }),
-            detail::from_any_visitor<unsigned long>([](std::istream &is, unsigned long &x) { is >> x; }),
+            detail::from_any_visitor<unsigned long>([](std::istream &is, unsigned long &x) { parse_unsigned(is, x); }),
             detail::from_any_visitor<long long>([](std::istream &is, long long &x) { is >> x; }),
-            detail::from_any_visitor<unsigned long long>([](std::istream &is, unsigned long long &x) { is >> x; }),
+            detail::from_any_visitor<unsigned long long>([](std::istream &is, unsigned long long &x) { parse_unsigned(is, x); }),
             detail::from_any_visitor<float>([](std::istream &is, float &x) { is >> x; }),
             detail::from_any_visitor<double>([](std::istream &is, double &x) { is >> x; }),
             detail::from_any_visitor<long double>([](std::istream &is, long double &x) { is >> x; }),
-- 
2.43.0


From 4a906d45d55af5a95b45c36a380bc08329cb8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 20/61] fix: a scoped registration ends the registration of its
 observer, whatever became of the variable

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 5948707..8822b2f 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1116,14 +1116,17 @@ namespace cmdr::util {
   struct registerer {
     using _Observable = observable<S, AutoLock, CNS, Observer>;
     _Observable &_observable;
-    typename _Observable::observer_t_shared &_observer;
+    // the observer itself, and not the variable it was passed in: that might
+    // refer to another observer, or to none, when the registration ends.
+    typename _Observable::observer_t _observer;
     registerer(_Observable &observable, typename _Observable::observer_t_shared &observer)
         : _observable(observable)
         , _observer(observer) {
-      _observable += _observer;
+      _observable += observer;
     }
     ~registerer() {
-      _observable -= _observer;
+      if (auto observer = _observer.lock())
+        _observable -= observer;
     }
   };
 
-- 
2.43.0


From 04c47f500be01498410b76d2dbad46b6f5aba81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 21/61] fix: lock the message queue while testing whether it is
 empty

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 96d5a03..b4801c8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -416,11 +416,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      const locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From 37dbc4628d31d0a541994b2e9a38f5f30b296631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 22/61] fix: lock the timer killer while testing whether it was
 killed

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index b4801c8..31a4d6f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -58,7 +58,7 @@ namespace cmdr::pool {
 
   protected:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     T _var{};
 
   public:
@@ -274,7 +274,10 @@ namespace cmdr::pool {
     //     std::unique_lock<std::mutex> lock(_m);
     //     return !_cv.wait_for(lock, time, [&] { return _terminate; });
     // }
-    bool terminated() const { return val(); }
+    bool terminated() const {
+      std::unique_lock<std::mutex> const lk(_m);
+      return val();
+    }
 
     /**
      * @brief wait for Pred condition matched
-- 
2.43.0


From 3f1d848f9237bcd055ae2f16b31a0b85c0d87c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 23/61] fix: let the thread pool queue tasks that return a
 value

---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 31a4d6f..1374af8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -464,7 +464,7 @@ namespace cmdr::pool {
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task.");
       std::this_thread::yield();
       return r;
@@ -476,7 +476,7 @@ namespace cmdr::pool {
       // std::packaged_task<R()> p(std::move(task));
       auto r = p.get_future();
       // _tasks.push_back(std::move(p));
-      _tasks.emplace_back(std::move(p));
+      _tasks.emplace_back(std::packaged_task<void()>(std::move(p)));
       pool_debug("queue_task (copy).");
       std::this_thread::yield();
       return r;
-- 
2.43.0


From 8a723f62aa10e0b6fc78798b0ff35dca2460b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 24/61] fix: a deferred close of an object without an action,
 or with any callable, compiles

---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index 8822b2f..863fe44 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -923,7 +923,11 @@ namespace cmdr::util {
         , _fn(fn) {}
     ~defer() {
       _c.close();
-      if (_fn) { _fn(); }
+      if constexpr (std::is_constructible<bool, _D &>::value) {
+        if (_fn) { _fn(); }
+      } else if constexpr (std::is_invocable<_D &>::value) {
+        _fn();
+      } // else: nothing but close(), such as std::default_delete
     }
 
   private:
-- 
2.43.0


From a5c79c027ad3a41c0114f60842b46d85bce5b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 25/61] fix: a quoted or !!str scalar of a YAML file is loaded
 as a string

---
 addons/loaders/yaml_loader.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 10a4b77..2c473c7 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -256,7 +256,9 @@ namespace cmdr::addons::loaders {
 
     static cmdr::vars::variable safe_get_value(YAML::Node const &node) {
       cmdr::vars::variable val;
-      if (auto as_bool = extractor<bool>(node); as_bool.has_value()) {
+      if (node.IsScalar() && (node.Tag() == "!" || node.Tag() == "tag:yaml.org,2002:str")) {
+        val = node.as<std::string>(); // quoted, or tagged as a string: "no" is a text, not a bool
+      } else if (auto as_bool = extractor<bool>(node); as_bool.has_value()) {
         val = as_bool.value();
       } else if (auto as_short = extractor<short>(node); as_short.has_value()) {
         val = as_short.value();
-- 
2.43.0


From fc79aa38252eb50cbea469bafdd89340cce6439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 26/61] fix: the YAML loader reads the file named by
 CONFIG_FILE, not by APP_VERSION

---
 addons/loaders/yaml_loader.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/addons/loaders/yaml_loader.hh b/addons/loaders/yaml_loader.hh
index 2c473c7..4c1990e 100755
--- a/addons/loaders/yaml_loader.hh
+++ b/addons/loaders/yaml_loader.hh
@@ -124,17 +124,17 @@ namespace cmdr::addons::loaders {
         {
           char* buf1 = nullptr;
           size_t sz = 0;
-          if (_dupenv_s(&buf1, &sz, "APP_VERSION") == 0 && buf1 != nullptr) {
+          if (_dupenv_s(&buf1, &sz, env_var) == 0 && buf1 != nullptr) {
             szbuf1 = buf1;
             free(buf1);
           }
         }
-        auto* appver = szbuf1.c_str();
+        auto* env_file = szbuf1.c_str();
 #else
-        char *appver = std::getenv("APP_VERSION");
+        char const *env_file = std::getenv(env_var);
 #endif
-        if (appver && *appver) {
-          auto file = std::string(appver);
+        if (env_file && *env_file) {
+          auto file = std::string(env_file);
           load_config_file_or_dir(file, c);
         }
 
-- 
2.43.0


From 487bb6db147d7e5210c2ce3fc1ca4655f6bb9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 27/61] fix: groups with the same or a plain numeric sort key
 are all shown in the help screen

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..faf1b41 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -386,9 +386,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -404,9 +404,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -470,7 +470,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -478,7 +478,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_commands.find(it.second);
         if (val_it == grouped_commands.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -535,7 +535,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -543,7 +543,7 @@ namespace cmdr::opt {
         auto const &val_it = grouped_args.find(it.second);
         if (val_it == grouped_args.end()) continue;
         auto const &val                   = val_it->second;
-        auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+        auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
         auto [wf, ws, wa, w, valid_count] = calc_widths(show_hidden_items, val);
 
@@ -752,14 +752,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_commands.find(it.second);
       if (val_it == _grouped_commands.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
@@ -856,14 +856,14 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
       auto const &val_it = _grouped_args.find(it.second);
       if (val_it == _grouped_args.end()) continue;
       auto const &val                   = val_it->second;
-      auto clean_key                    = string::has_prefix(it.second, it.first) ? it.second.substr(it.first.length() + 1) : it.second;
+      auto clean_key                    = string::has_prefix(it.second, it.first + '.') ? it.second.substr(it.first.length() + 1) : it.second;
 
       auto [wf, ws, wa, w, valid_count] = detail::calc_widths(show_hidden_items, val);
 
-- 
2.43.0


From 8b6cc3b8569c43024b90b87e94ad58cbae149afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 28/61] fix: suggestions for an unknown flag compare its title
 without the leading dashes

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 2eb235f..6845597 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -363,14 +363,14 @@ namespace cmdr {
       std::ostringstream os;
       do {
         for (auto const &cc: c->_all_args) {
-          if (jaro.calculate(pc.title.c_str(), cc.title_long().c_str()).matched()) {
+          if (jaro.calculate(pc.title_fragment.c_str(), cc.title_long().c_str()).matched()) {
             std::ostringstream tt;
             tt << "--" << cc.title_long();
             os << '\n'
                << "   - " << std::quoted(tt.str()) << ' ' << '[' << jaro.get_distance() << ']' << " (under command " << std::quoted(c->title_sequences()) << ')' << '?';
           }
           for (auto const &str: cc.title_aliases()) {
-            if (jaro.calculate(pc.title.c_str(), str.c_str()).matched()) {
+            if (jaro.calculate(pc.title_fragment.c_str(), str.c_str()).matched()) {
               std::ostringstream tt;
               tt << "--" << str;
               os << '\n'
@@ -410,7 +410,7 @@ namespace cmdr {
         for (auto const &cc: c->_all_args) {
           std::ostringstream tt;
           tt << '-' << cc.title_short();
-          if (jaro.calculate(pc.title.c_str(), cc.title_short().c_str()).matched()) {
+          if (jaro.calculate(pc.title_fragment.c_str(), cc.title_short().c_str()).matched()) {
             os << '\n'
                << "   - " << std::quoted(tt.str()) << ' ' << '[' << jaro.get_distance() << ']' << " (under command " << std::quoted(c->title_sequences()) << ')' << '?';
           }
-- 
2.43.0


From f3669a27607ecb88dd17475de5bc88548e178308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 29/61] fix: equal texts have the greatest similarity in
 jaro_winkler_distance

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 51836ce..57f6df7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -809,7 +809,7 @@ namespace cmdr::text {
 
       // Exit early if they're an exact match.
       if (s1 == s2) {
-        return 1;
+        return _distance = 1;
       }
 
       // Maximum distance upto which matching
-- 
2.43.0


From 5d4294dbda36d0f95d21480dbd7bc89e363fcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 30/61] fix: the microseconds printed after milliseconds take
 three places

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 76894c0..a462b76 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -439,12 +439,12 @@ namespace cmdr::chrono {
     }
     bool z2{}, zdot1{}, zdot2{};
     const auto us = duration_cast<microseconds>(ns);
-    if (us.count() || z2) {
+    if (us.count() || z2 || (z1 && ns.count())) {
       if (z1) {
         os << '.';
         zdot1 = true;
       }
-      if (foundNonZero)
+      if (foundNonZero || z1)
         os << std::setw(3) << us.count();
       else
         os << us.count();
-- 
2.43.0


From a1a4e12ca933ae868e6c144f9440f9c28d9eef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 31/61] fix: a negative duration is printed with one leading
 sign

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index a462b76..a868a95 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -392,6 +392,10 @@ namespace cmdr::chrono {
     // std::ostringstream os;
     bool foundNonZero = false;
     os.fill('0');
+    if (ns < nanoseconds::zero()) {
+      os << '-';
+      ns = -ns;
+    }
     typedef duration<int, std::ratio<86400 * 365>> years_;
     const auto y = duration_cast<years_>(ns);
     if (y.count()) {
-- 
2.43.0


From 18d741aa6825068c9942d33a748d22b7f4dfbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 32/61] fix: printing durations and points in time keeps the
 fill character of the stream

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index a868a95..6cdbbfb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -391,7 +391,7 @@ namespace cmdr::chrono {
     nanoseconds ns    = duration_cast<nanoseconds>(timeunit);
     // std::ostringstream os;
     bool foundNonZero = false;
-    os.fill('0');
+    const char fill   = os.fill('0');
     if (ns < nanoseconds::zero()) {
       os << '-';
       ns = -ns;
@@ -473,6 +473,7 @@ namespace cmdr::chrono {
       else
         os << "ms";
     }
+    os.fill(fill);
     return os; // .str();
   }
 
@@ -614,6 +615,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    const char fill = os.fill();
     std::size_t ms = time_point_get_ms(time);
     if (iom_::has(iom_::fmtflags::ns)) {
       // auto t0 = std::chrono::high_resolution_clock::now();
@@ -641,6 +643,7 @@ namespace cmdr::chrono {
     } else {
       os << std::put_time(tm, format);
     }
+    os.fill(fill);
 
     return os;
   }
@@ -828,6 +831,7 @@ namespace cmdr::chrono {
     // else
     //     tm = std::gmtime(&tt); //GMT (UTC)
 
+    const char fill = os.fill();
     if (iom_::has(iom_::fmtflags::ns)) {
       auto const _nsec = in_nsec();
       os << std::put_time(tm, format) << '.' << std::setfill('0')
@@ -843,6 +847,7 @@ namespace cmdr::chrono {
     } else {
       os << std::put_time(tm, format);
     }
+    os.fill(fill);
 
     return os;
   }
-- 
2.43.0


From 737a3ce0533e14566bc12e7003b2a7c054e9ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 33/61] fix: choosing the fraction of a second keeps the chosen
 time zone in iom

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 6cdbbfb..1972e57 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -291,7 +291,7 @@ namespace cmdr::chrono {
         return;
       }
       if (v < fmtflags::mask_extra_fields) {
-        _flags = (fmtflags) ((unsigned int) _flags & ((unsigned int) fmtflags::mask_extra_fields + 1));
+        _flags = (fmtflags) ((unsigned int) _flags & ~(unsigned int) fmtflags::mask_extra_fields);
         _flags = (fmtflags) ((unsigned int) _flags | (unsigned int) (v));
         return;
       }
-- 
2.43.0


From e3fc922f5e6e96eeaea04ddffd9194f8cdb2b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 34/61] fix: points in time before 1970 are printed with their
 second and its fraction

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 1972e57..cd4f409 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -505,30 +505,30 @@ namespace cmdr::chrono {
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ms(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    milliseconds ms                = duration_cast<milliseconds>(time.time_since_epoch());
+    milliseconds ms                = floor<milliseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ms.count() % 1000;
+    std::size_t fractional_seconds = (ms.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_us(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    microseconds us                = duration_cast<microseconds>(time.time_since_epoch());
+    microseconds us                = floor<microseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = us.count() % 1000;
+    std::size_t fractional_seconds = (us.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
   template<class _Clock, class _Duration = typename _Clock::duration>
   inline auto time_point_get_ns(std::chrono::time_point<_Clock, _Duration> const &time) {
     using namespace std::chrono;
-    nanoseconds ns                 = duration_cast<nanoseconds>(time.time_since_epoch());
+    nanoseconds ns                 = floor<nanoseconds>(time.time_since_epoch());
     // seconds s = duration_cast<seconds>(ms);
     // std::time_t t = s.count();
-    std::size_t fractional_seconds = ns.count() % 1000;
+    std::size_t fractional_seconds = (ns.count() % 1000 + 1000) % 1000;
     return fractional_seconds;
   }
 
@@ -544,7 +544,7 @@ namespace cmdr::chrono {
 
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
   inline std::tm time_point_2_tm(typename Clock::time_point const tp) {
-    auto time_now = Clock::to_time_t(tp);
+    auto time_now = Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(tp));
     if (GMT) {
 #if defined(_WIN32) || defined(_WIN64)
       struct tm tm1;
@@ -584,9 +584,7 @@ namespace cmdr::chrono {
   inline std::ostream &serialize_time_point(std::ostream &os, std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
     using iom_     = cmdr::chrono::iom;
     // using tp = std::chrono::time_point<_Clock, _Duration>;
-    std::time_t tt = _Clock::to_time_t(time);
-    if (tt == -1)
-      return os;
+    std::time_t tt = _Clock::to_time_t(std::chrono::floor<std::chrono::seconds>(time)); // the second `time` is in, before 1970 too
     std::tm *tm{nullptr};
     if (iom_::has(iom_::fmtflags::gmt_or_local)) {
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From 6ab49a836246532ed9319fb6f3dde31a332c78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 35/61] fix: parse_datetime takes the time of day written after
 a date with slashes

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index cd4f409..5eb8421 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -921,8 +921,8 @@ namespace cmdr::chrono {
     }
 
     if (try_parse_by(tm, str,
-                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S",
-                     "%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S")) {
+                     "%Y/%m/%d %H:%M:%S",
+                     "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
       n = Clock::from_time_t(std::mktime(&tm));
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
-- 
2.43.0


From 970ff39e6055f1e0546af7a0b83167d6358fce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 36/61] fix: whether it is summer time now does not shift the
 date and time parsed

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 5eb8421..c48bc0d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -489,7 +489,10 @@ namespace cmdr::chrono {
   //
   inline bool try_parse(std::tm &tm, const std::string &expression, const std::string &format) {
     std::stringstream ss(expression);
-    return !(ss >> std::get_time(&tm, format.c_str())).fail();
+    if ((ss >> std::get_time(&tm, format.c_str())).fail())
+      return false;
+    tm.tm_isdst = -1; // whether it is summer time at that time is not in the expression
+    return true;
   }
 
 
@@ -882,6 +885,7 @@ namespace cmdr::chrono {
       std::stringstream ss(source_string);
       if (!(ss >> std::get_time(&tm, format)).fail()) {
         // printf("  . . . . parsed: %s\n", format_time_point(now).c_str());
+        tm.tm_isdst = -1; // whether it is summer time at that time is not in the text
         return true;
       }
       tm = tm_local_copy;
-- 
2.43.0


From 33542a7d88733c7861e5f5f0c414524e4a069a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 37/61] fix: the last days of a month or year count calendar
 days

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 26 ++++++++---------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index c48bc0d..28cfab7 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -699,20 +699,16 @@ namespace cmdr::chrono {
     if (day_offset < 1 || day_offset > 31)
       return tm_2_time_point(tmp);
 
-    // get next month 1st
-    tmp.tm_mday = mday; // get next month 1st day
+    // get next month 1st, and subtract day_offset: as calendar days, a day may have 23 or 25 hours
+    tmp.tm_mday  = mday - day_offset;
+    tmp.tm_isdst = -1;
     tmp.tm_mon += month_delta;
     while (tmp.tm_mon > 11) {
       tmp.tm_mon -= 12;
       tmp.tm_year++;
     }
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got next month 1st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
-    // printf("  . . . . got next month 1st - %d day: %s\n", day_offset, format_time_point(t).c_str());
-    return t;
+    return Clock::from_time_t(std::mktime(&tmp));
   }
   /**
    * @brief get last 'day_offset' day of this month.
@@ -744,17 +740,13 @@ namespace cmdr::chrono {
     if (day_offset < 1 || day_offset > 366)
       return tm_2_time_point(tmp);
 
-    // get December 31st
-    tmp.tm_mday = 1; // get next month 1st day
-    tmp.tm_mon  = 0; // Dec 31th
+    // get January 1st, and subtract day_offset: as calendar days, a day may have 23 or 25 hours
+    tmp.tm_mday = 1 - day_offset;
+    tmp.tm_mon  = 0;
     tmp.tm_year++;
+    tmp.tm_isdst = -1;
 
-    // subtract day_offset
-    auto t = Clock::from_time_t(std::mktime(&tmp));
-    // printf("  . . . . got December 31st: %s\n", format_time_point(t).c_str());
-    t -= std::chrono::hours((day_offset) * 24); // and subtract 1 day, so we get the last day in this month
-    // printf("  . . . . got December 31st + 1 - %d day: %s\n", day_offset, format_time_point(t).c_str());
-    return t;
+    return Clock::from_time_t(std::mktime(&tmp));
   }
   /**
    * @brief get last 'day_offset' day of this year.
-- 
2.43.0


From 182536aa616337b3d80c6a467c806b146f5cc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 38/61] fix: last_day_at_this_month is in this month unless
 another is asked for

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 28cfab7..b7c539e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -694,7 +694,7 @@ namespace cmdr::chrono {
    * @return new time point
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline typename Clock::time_point last_day_at_this_month_in_time_point(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     std::tm tmp = tm;
     if (day_offset < 1 || day_offset > 31)
       return tm_2_time_point(tmp);
@@ -721,7 +721,7 @@ namespace cmdr::chrono {
    * @return new time point in std::tm structure
    */
   template<typename Clock = std::chrono::system_clock, bool GMT = false>
-  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 0, int mday = 1) {
+  inline std::tm last_day_at_this_month(std::tm const &tm, int day_offset = 1, int month_delta = 1, int mday = 1) {
     auto t = last_day_at_this_month_in_time_point(tm, day_offset, month_delta, mday);
     return time_point_2_tm(t);
   }
-- 
2.43.0


From c2a66160d74dadd0740a438f90a70b9587da38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 39/61] fix: compare_date_part tells earlier dates from later
 ones

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index b7c539e..6208c5d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -764,14 +764,11 @@ namespace cmdr::chrono {
 
 
   template<typename Clock = std::chrono::system_clock>
-  inline bool compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
+  inline int compare_date_part(typename Clock::time_point const &lhs, typename Clock::time_point const &rhs) {
     std::tm tml = time_point_2_tm(lhs);
     std::tm tmr = time_point_2_tm(rhs);
-    tml.tm_sec  = tmr.tm_sec;
-    tml.tm_min  = tmr.tm_min;
-    tml.tm_hour = tmr.tm_hour;
-    auto l      = tm_2_time_point(tml);
-    auto r      = tm_2_time_point(tmr);
+    auto l      = std::make_tuple(tml.tm_year, tml.tm_mon, tml.tm_mday);
+    auto r      = std::make_tuple(tmr.tm_year, tmr.tm_mon, tmr.tm_mday);
     return l == r ? 0 : l < r ? -1
                               : 1;
   }
-- 
2.43.0


From 0632868be3d90b04cf7a00ffc8358d5fc6bc93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 40/61] fix: parse_datetime reads a date and time in GMT where
 that is asked for

---
 libs/cmdr11/include/cmdr11/cmdr_chrono.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
index 6208c5d..5ba10c9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_chrono.hh
@@ -916,7 +916,11 @@ namespace cmdr::chrono {
     if (try_parse_by(tm, str,
                      "%Y/%m/%d %H:%M:%S",
                      "%Y-%m-%d", "%Y/%m/%d", "%H:%M:%S")) {
-      n = Clock::from_time_t(std::mktime(&tm));
+#if defined(_WIN32) || defined(_WIN64)
+      n = Clock::from_time_t(GMT ? _mkgmtime(&tm) : std::mktime(&tm));
+#else
+      n = Clock::from_time_t(GMT ? timegm(&tm) : std::mktime(&tm));
+#endif
       // printf("  . . . . parsed: %s\n", format_time_point(n).c_str());
     }
 
-- 
2.43.0


From 3baff79a5f6bb353c9edff8fc9af7c77ad7e202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 41/61] fix: read_until stops at a delimiter of several
 characters and at the end of the stream

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 31 ++++++++---------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 57f6df7..b71598e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -401,29 +401,20 @@ namespace cmdr::string {
 
   inline std::string read_until(std::istream &in, char const *delimiter = ",") {
     std::string cr;
-    char de   = *delimiter;
-    size_t sz = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      std::getline(in, temp, de);
-      cr += temp + de;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    size_t sz = std::strlen(delimiter);
+    char c;
+    while (in.get(c)) {
+      cr += c;
+      if (sz > 0 && cr.size() >= sz && cr.compare(cr.size() - sz, sz, delimiter) == 0)
+        return cr.substr(0, cr.size() - sz); // or return cr; if you want to keep the delimiter
+    }
+    return cr; // all that was left
   }
 
   inline bool read_until(std::istream &in, std::string &ret, char const *delimiter = ",") {
-    std::string cr;
-    char delim = *delimiter;
-    size_t sz  = std::strlen(delimiter), tot;
-    do {
-      std::string temp;
-      if (!std::getline(in, temp, delim))
-        return false;
-      cr += temp + delim;
-      tot = cr.size();
-    } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
-    ret = cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
+    if (in.peek() == std::istream::traits_type::eof())
+      return false;
+    ret = read_until(in, delimiter);
     return true;
   }
 
-- 
2.43.0


From af72464b9cd8af7c22c79cce5802aa0c52d00acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 42/61] fix: expand_env takes a closing brace only with its
 opening one

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index b71598e..a4ff1db 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -494,11 +494,11 @@ namespace cmdr::string {
 
   inline std::string expand_env(std::string text) {
     // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
-    static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
+    static const std::regex env_re{R"(\$(?:\{([a-z0-9_]+)\}|([a-z0-9_]+)))", std::regex::icase};
     std::smatch match;
     while (std::regex_search(text, match, env_re)) {
       auto const &from     = match[0];
-      auto const &th       = match[1];
+      auto const &th       = match[1].matched ? match[1] : match[2];
       auto const &var_name = th.str();
 #if defined(_WIN32) || defined(_WIN64)
       char* buf = nullptr;
-- 
2.43.0


From f0cb0a1f66b2994df8ab036686d71adf4e5fda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 43/61] fix: expand_env ends for a variable whose value
 mentions itself

---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 54 +++++++++++++++--------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index a4ff1db..ed23033 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -38,6 +38,7 @@
 #include <variant>
 #include <vector>
 
+#include <algorithm>
 #include <regex>
 #include <utility>
 
@@ -492,28 +493,45 @@ namespace cmdr::string {
   }
 
 
-  inline std::string expand_env(std::string text) {
-    // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
-    static const std::regex env_re{R"(\$(?:\{([a-z0-9_]+)\}|([a-z0-9_]+)))", std::regex::icase};
-    std::smatch match;
-    while (std::regex_search(text, match, env_re)) {
-      auto const &from     = match[0];
-      auto const &th       = match[1].matched ? match[1] : match[2];
-      auto const &var_name = th.str();
+  namespace detail {
+    inline std::string expand_env(std::string const &text, std::vector<std::string> &expanding) {
+      // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
+      static const std::regex env_re{R"(\$(?:\{([a-z0-9_]+)\}|([a-z0-9_]+)))", std::regex::icase};
+      std::string out;
+      auto pos = text.cbegin();
+      std::smatch match;
+      while (std::regex_search(pos, text.cend(), match, env_re)) {
+        auto const var_name = match[match[1].matched ? 1 : 2].str();
+        out.append(pos, match[0].first);
+        pos = match[0].second;
+        if (std::find(expanding.begin(), expanding.end(), var_name) != expanding.end()) {
+          out += match[0].str(); // its own value mentions it
+          continue;
+        }
+        std::string value;
 #if defined(_WIN32) || defined(_WIN64)
-      char* buf = nullptr;
-      size_t sz = 0;
-      if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr)
-      {
-        text.replace(from.first, from.second, buf);
-        free(buf);
-      }
+        char *buf = nullptr;
+        size_t sz = 0;
+        if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr) {
+          value = buf;
+          free(buf);
+        }
 #else
-      auto *ptr            = std::getenv(var_name.c_str());
-      text.replace(from.first, from.second, ptr ? ptr : "");
+        if (auto *ptr = std::getenv(var_name.c_str()))
+          value = ptr;
 #endif
+        expanding.push_back(var_name);
+        out += expand_env(value, expanding);
+        expanding.pop_back();
+      }
+      out.append(pos, text.cend());
+      return out;
     }
-    return text;
+  } // namespace detail
+
+  inline std::string expand_env(std::string text) {
+    std::vector<std::string> expanding;
+    return detail::expand_env(text, expanding);
   }
 
 
-- 
2.43.0


From 778d9a1012308d0e00703fb404d5e041963c832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 44/61] fix: the help screen ends on a terminal as wide as its
 titles

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index faf1b41..91904cf 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -582,7 +582,9 @@ namespace cmdr::opt {
                                  int wt_real) {
       std::ostringstream ss;
       auto d  = desc;
-      auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      // the columns left for the description; a terminal too narrow for any of them isn't wrapped for.
+      auto cw = (tw <= 0 ? 1000 : tw) - wt_real - 2;
+      auto rw = cw > 0 ? (std::size_t) cw : d.length();
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From c33ba6541a83371a813ed7fb513066860b64c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 45/61] fix: descriptions of grouped commands start in the
 column of the others

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 91904cf..5b3d503 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -445,7 +445,7 @@ namespace cmdr::opt {
           std::stringstream tmp;
           tmp << '[' << clean_key << ']';
           ss << c.fg(fg).dim(dim).s(tmp.str()) << '\n';
-          level_pad++;
+          if (level >= 0) level_pad++; // only the items of a tree are indented under their group
         }
       }
       return ss.str();
-- 
2.43.0


From 8332d569e6c3b32e7bba6295a7a720bad3d61277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 46/61] fix: the tree of commands honours --no-color

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..1ec2837 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -336,6 +336,9 @@ namespace cmdr {
 
     // _pr_tree(std::cout, &pc.last_matched_cmd());
     auto c                       = cmdr::terminal::colors::colorize::create();
+    if (is_no_color()) {
+      c.enable(false);
+    }
     pc.last_matched_cmd().print_commands(std::cout, c, _minimal_tab_width, true, show_hidden_items, sc_mode, 0);
     return 0;
   }
-- 
2.43.0


From 2792cab5f5250187cfe31644c053f1d6c5ae3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 47/61] fix: a toggle group doesn't replace the group a flag
 was given

---
 libs/cmdr11/include/cmdr11/cmdr_arg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_arg.hh b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
index afa32c1..c68b4df 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_arg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
@@ -493,7 +493,7 @@ namespace cmdr::opt {
 
     arg &toggle_group(const_chars s) {
       if (s) _toggle_group = s;
-      if (!bas::_group.empty()) bas::_group = _toggle_group;
+      if (bas::_group.empty()) bas::_group = _toggle_group;
       return (*this);
     }
 
-- 
2.43.0


From 0a45117f2c52cd0296a759bddd4b2fa52e23d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 48/61] fix: a new colorizer has no colors until they are set

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..8e66ac8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -125,13 +125,12 @@ namespace cmdr::terminal::colors {
     // protected:
   public:
     explicit colorize(bool true_color_enabled = true)
-        : _fg{}
-        , _bg{}
+        : _fg{-1}
+        , _bg{-1}
         , _st{}
         , _true_color_enabled(true_color_enabled) {
       _init();
       if (_colors <= 256) _true_color_enabled = false;
-      if (_true_color_enabled) _fg = _bg = -1;
       _colorful = _default_colorful;
     }
 
@@ -790,9 +789,8 @@ namespace cmdr::terminal::colors {
 
     void clear() {
       // NOTE: _colorful, _default_colorful, _colors, _true_color_enabled will be kept.
-      _fg = _bg = {};
+      _fg = _bg = -1;
       _st._i    = 0;
-      if (_true_color_enabled) _fg = _bg = -1;
       _auto_reset = true;
       _cc         = {};
       _ss.clear();
-- 
2.43.0


From 6d023e7b885719ecee1bfbdeb930da6f5eceddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 49/61] fix: a text modifier works without a color

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 8e66ac8..e5dae4b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -738,25 +738,30 @@ namespace cmdr::terminal::colors {
     }
     friend std::ostream &operator<<(std::ostream &os, const colorize &o) {
       if (o._colorful) {
-        os << "\033[" << o.modifiers();
+        std::ostringstream codes;
+        codes << o.modifiers();
         if (o._true_color_enabled) {
           if (o._fg != -1) {
-            os << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
-            if (o._bg != -1) os << ';';
+            codes << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
+            if (o._bg != -1) codes << ';';
           }
           if (o._bg != -1) {
-            os << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
+            codes << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
           }
         } else {
           if (o._fg >= 0 && o._fg < 256) {
-            os << "38;5;" << o._fg;
-            if (o._bg >= 0 && o._bg < 256) os << ';';
+            codes << "38;5;" << o._fg;
+            if (o._bg >= 0 && o._bg < 256) codes << ';';
           }
           if (o._bg >= 0 && o._bg < 256) {
-            os << "48;5;" << o._bg;
+            codes << "48;5;" << o._bg;
           }
         }
-        os << 'm';
+        auto str = codes.str();
+        if (!str.empty() && str.back() == ';')
+          str.pop_back(); // an empty parameter would reset all of the previous ones
+        if (!str.empty())
+          os << "\033[" << str << 'm';
       }
 
       // text
-- 
2.43.0


From f6143bfe640bd6f1875bb7defffe9c5aad869dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 50/61] fix: turning a text modifier off uses its own code

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index e5dae4b..ace02f3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -218,17 +218,20 @@ namespace cmdr::terminal::colors {
       std::cout << "How many colors: " << _colors << ", " << _default_colorful << '\n';
     }
 
+    // the code which turns a modifier off: bold and dim share one, and so do both of the blinks.
+    static constexpr int off_code(int i) { return i == 1 ? 22 : (i == 6 ? 25 : 20 + i); }
+
   public:
 #define DEF_MODIFIER(what, i)               \
   colorize &what(bool b = true) {           \
     /*_st._individual._##what = b; */       \
-    _stocked_ss << (b ? i : 20 + i) << ';'; \
+    _stocked_ss << (b ? i : off_code(i)) << ';'; \
     return (*this);                         \
   }                                         \
   colorize &reset_##what() {                \
     /*_st._individual._reset_##what = b;*/  \
     /*_st._individual._##what = false;*/    \
-    _stocked_ss << (20 + i) << ';';         \
+    _stocked_ss << off_code(i) << ';';      \
     return (*this);                         \
   }
     DEF_MODIFIER(bold, 1)
@@ -681,7 +684,7 @@ namespace cmdr::terminal::colors {
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (int) o << ";m";
+      if (_default_colorful) os << "\033[" << (o == reset::all ? 0 : off_code((int) o)) << "m";
       return os;
     }
 
-- 
2.43.0


From a975c51e2d162c6424f1a4a49b3c592390d004a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 51/61] fix: foreground and background colors are of the kind
 each was given

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 40 +++++++++------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index ace02f3..014080c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -136,6 +136,7 @@ namespace cmdr::terminal::colors {
 
   protected:
     int _fg, _bg;
+    bool _fg_true{}, _bg_true{}; // an RGB value, or an index of 256-colors
 
     union _status {
       struct {
@@ -565,24 +566,26 @@ namespace cmdr::terminal::colors {
 
     colorize &fg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _fg                 = (r << 16) | (g << 8) | b;
-      _true_color_enabled = true;
+      _fg      = (r << 16) | (g << 8) | b;
+      _fg_true = true;
       return (*this);
     }
     colorize &fg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _fg                 = (int) color256;
-      _true_color_enabled = false;
+      _fg      = (int) color256;
+      _fg_true = false;
       return (*this);
     }
     colorize &bg(int r, int g, int b) {
       // CMDR_ASSERT(c >= 0 && c <= 256);
-      _bg = (r << 16) | (g << 8) | b;
+      _bg      = (r << 16) | (g << 8) | b;
+      _bg_true = true;
       return (*this);
     }
     colorize &bg(Colors256 color256) {
       // CMDR_ASSERT(color256 >= 0 && color256 <= 256);
-      _bg = (int) color256;
+      _bg      = (int) color256;
+      _bg_true = false;
       return (*this);
     }
 
@@ -743,23 +746,14 @@ namespace cmdr::terminal::colors {
       if (o._colorful) {
         std::ostringstream codes;
         codes << o.modifiers();
-        if (o._true_color_enabled) {
-          if (o._fg != -1) {
-            codes << "38;2;" << __R(o._fg) << ';' << __G(o._fg) << ';' << __B(o._fg);
-            if (o._bg != -1) codes << ';';
-          }
-          if (o._bg != -1) {
-            codes << "48;2;" << __R(o._bg) << ';' << __G(o._bg) << ';' << __B(o._bg);
-          }
-        } else {
-          if (o._fg >= 0 && o._fg < 256) {
-            codes << "38;5;" << o._fg;
-            if (o._bg >= 0 && o._bg < 256) codes << ';';
-          }
-          if (o._bg >= 0 && o._bg < 256) {
-            codes << "48;5;" << o._bg;
-          }
-        }
+        auto put = [&codes](int what, int color, bool true_color) {
+          if (true_color && color != -1)
+            codes << what << ";2;" << __R(color) << ';' << __G(color) << ';' << __B(color) << ';';
+          else if (!true_color && color >= 0 && color < 256)
+            codes << what << ";5;" << color << ';';
+        };
+        put(38, o._fg, o._fg_true);
+        put(48, o._bg, o._bg_true);
         auto str = codes.str();
         if (!str.empty() && str.back() == ';')
           str.pop_back(); // an empty parameter would reset all of the previous ones
-- 
2.43.0


From fbd06a63afd88a4d498ae27bc671923ddb83778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 52/61] fix: set_default_colorful() holds for the colorizers
 made later

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 014080c..b6d742e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -174,8 +174,10 @@ namespace cmdr::terminal::colors {
 
     bool _colorful;
     static bool _default_colorful;
+    static bool _default_given; // by set_default_colorful()
     static int _colors;
     static void _init() {
+      if (_default_given) return;
       _default_colorful = terminfo::is_colorful();
       _colors           = terminfo::support_colors();
 #if defined(_DEBUG)
@@ -185,6 +187,10 @@ namespace cmdr::terminal::colors {
       }
 #endif
     }
+    static bool default_colorful() {
+      _init();
+      return _default_colorful;
+    }
 
     std::string modifiers() const {
 #if 0
@@ -667,27 +673,27 @@ namespace cmdr::terminal::colors {
     };
 
     friend std::ostream &operator<<(std::ostream &os, const enum style o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (default_colorful()) os << "\033[" << (int) o << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (default_colorful()) os << "\033[" << (int) o << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bg o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (default_colorful()) os << "\033[" << (int) o << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum fgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (default_colorful()) os << "\033[" << (int) o << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum bgB o) {
-      if (_default_colorful) os << "\033[" << (int) o << "m";
+      if (default_colorful()) os << "\033[" << (int) o << "m";
       return os;
     }
     friend std::ostream &operator<<(std::ostream &os, const enum reset o) {
-      if (_default_colorful) os << "\033[" << (o == reset::all ? 0 : off_code((int) o)) << "m";
+      if (default_colorful()) os << "\033[" << (o == reset::all ? 0 : off_code((int) o)) << "m";
       return os;
     }
 
@@ -721,6 +727,8 @@ namespace cmdr::terminal::colors {
      * @param enable_colors
      */
     [[maybe_unused]] static void set_default_colorful(bool enable_colors = true) {
+      _init();
+      _default_given    = true;
       _default_colorful = enable_colors;
       if (enable_colors && _colors == 0) _colors = 256;
     }
@@ -807,6 +815,7 @@ namespace cmdr::terminal::colors {
   // }
 
   inline bool colorize::_default_colorful{};
+  inline bool colorize::_default_given{};
   inline int colorize::_colors{};
 
 
-- 
2.43.0


From 01d2d3898995189b16a8813e505fade4a6932154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 53/61] fix: the return code of a command ended by a signal
 isn't 0

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index d24ba8e..a1cbc20 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -17,6 +17,10 @@
 #include <thread>
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 #include <windows.h>
+#else
+#include <stdlib.h>
+#include <sys/wait.h>
+#include <unistd.h>
 #endif
 #include <array>
 
@@ -265,7 +269,15 @@ namespace cmdr::process {
       this->rdbuf(&buffer);
     }
 
-    int ret_code() const { return buffer._rc / 256; }
+    int ret_code() const {
+#if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
+      return buffer._rc / 256;
+#else
+      if (buffer._rc == -1) return -1;
+      // the way a shell tells it
+      return WIFSIGNALED(buffer._rc) ? 128 + WTERMSIG(buffer._rc) : WEXITSTATUS(buffer._rc);
+#endif
+    }
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-- 
2.43.0


From 53b78adb8359c6f3c80a703e4ca77d63c5c8acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 54/61] fix: a long command is executed as it is

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index a1cbc20..3116450 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -210,10 +210,9 @@ namespace cmdr::process {
 
 #else // try POSIX
         tmpfile_stderr = path::tmpname_for_stderr();
-        std::array<char, 512> cmd;
-        std::snprintf(cmd.data(), 512, "%s 2>%s", command, tmpfile_stderr.c_str());
+        std::string cmd = std::string(command) + " 2>" + tmpfile_stderr;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
-        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.data(), "r"), [this](FILE *f) {
+        std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
           if (_rc == EXIT_SUCCESS) {        // == 0
           } else if (_rc == EXIT_FAILURE) { // EXIT_FAILURE is not used by all programs, maybe needs some adaptation.
-- 
2.43.0


From 8fae582dfd62d51e9f2e5e9c6843ef5b68224a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 55/61] fix: the stderr of every part of a command is captured

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 3116450..40edcea 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -210,7 +210,11 @@ namespace cmdr::process {
 
 #else // try POSIX
         tmpfile_stderr = path::tmpname_for_stderr();
-        std::string cmd = std::string(command) + " 2>" + tmpfile_stderr;
+        std::string cmd = "exec 2>'"; // for all of the command, not for its last part only
+        for (char c: tmpfile_stderr)
+          cmd += c == '\'' ? std::string("'\\''") : std::string(1, c);
+        cmd += "'\n";
+        cmd += command;
         // std::unique_ptr<FILE, decltype(&pclose)> pipe(popen(command, "r"), pclose);
         std::unique_ptr<FILE, std::function<void(FILE *)>> pipe(popen(cmd.c_str(), "r"), [this](FILE *f) {
           _rc = pclose(f);
-- 
2.43.0


From 923bf2213365cc81170ac98de1024a2a78092237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 56/61] fix: the stderr of a command isn't mixed with the one
 of another

---
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index 40edcea..c187930 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -209,7 +209,13 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
 #else // try POSIX
-        tmpfile_stderr = path::tmpname_for_stderr();
+        // a file of its own, it's removed as soon as it has been opened.
+        tmpfile_stderr = (fs::temp_directory_path() / "cmdr-stderr-XXXXXX").string();
+        int fd         = mkstemp(tmpfile_stderr.data());
+        if (fd == -1) {
+          throw std::runtime_error("mkstemp() failed!");
+        }
+        ::close(fd);
         std::string cmd = "exec 2>'"; // for all of the command, not for its last part only
         for (char c: tmpfile_stderr)
           cmd += c == '\'' ? std::string("'\\''") : std::string(1, c);
@@ -223,6 +229,7 @@ namespace cmdr::process {
           }
         });
         if (!pipe) {
+          std::remove(tmpfile_stderr.c_str());
           throw std::runtime_error("popen() failed!");
         }
 
@@ -238,6 +245,7 @@ namespace cmdr::process {
         setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));
 
         _ef = std::ifstream(tmpfile_stderr);
+        std::remove(tmpfile_stderr.c_str());
 
         // auto rc = pclose(pipe);
 #endif
-- 
2.43.0


From 200aef3a202bbccf2ae68201f011e59a840bd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 57/61] fix: a stream stays good if an empty one is printed to
 it

---
 libs/cmdr11/include/cmdr11/cmdr_ios.hh     | 6 ++++--
 libs/cmdr11/include/cmdr11/cmdr_process.hh | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_ios.hh b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
index 55d9eb1..1cc246c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_ios.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_ios.hh
@@ -19,7 +19,9 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
 }
 template<class _CharT, class _Traits = std::char_traits<_CharT>>
 inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::basic_ifstream<_CharT, _Traits> const &ifs) {
-  return os << ifs.rdbuf();
+  if (ifs.rdbuf()->sgetc() != _Traits::eof()) // to print nothing would be an error to os
+    os << ifs.rdbuf();
+  return os;
 }
 // template<class _CharT, class _Traits = std::char_traits<_CharT>>
 // inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT, _Traits> &os, std::ifstream const &ifs) {
@@ -31,7 +33,7 @@ inline std::basic_ostream<_CharT, _Traits> &operator<<(std::basic_ostream<_CharT
   // ifs >> std::noskipws;
   // std::copy(std::istream_iterator<char>(ifs), std::istream_iterator<char>(), std::ostream_iterator<char>(std::cout));
 
-  if (ifs.rdbuf() != nullptr)
+  if (ifs.rdbuf() != nullptr && ifs.rdbuf()->sgetc() != _Traits::eof())
     os << ifs.rdbuf();
   return os;
 }
diff --git a/libs/cmdr11/include/cmdr11/cmdr_process.hh b/libs/cmdr11/include/cmdr11/cmdr_process.hh
index c187930..6b7f532 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_process.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_process.hh
@@ -292,7 +292,7 @@ namespace cmdr::process {
     std::ifstream &stderr_stream() { return buffer._ef; }
 
     friend std::ostream &operator<<(std::ostream &os, exec const &o) {
-      if (o.buffer.size())
+      if (o.rdbuf()->in_avail() > 0) // to print nothing would be an error to os
         os << o.rdbuf();
       return os;
     }
-- 
2.43.0


From ec4aeeb44adca79948b9c619cd0ebb558a379dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 58/61] fix: two threads don't get the same temporary name

---
 libs/cmdr11/include/cmdr11/cmdr_path.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_path.hh b/libs/cmdr11/include/cmdr11/cmdr_path.hh
index 9fdc148..2547999 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_path.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_path.hh
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <filesystem>
 #include <string>
@@ -489,9 +490,9 @@ namespace cmdr::path {
    */
   inline std::filesystem::path tmpname_autoincr(char const *name_template = nullptr) {
     std::filesystem::path p = fs::temp_directory_path();
-    static int id           = 0;
+    static std::atomic<int> id{0};
     char buf[MAX_PATH];
-    snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", id++);
+    snprintf(buf, MAX_PATH, name_template ? name_template : "_%05d", (int) id++);
     p /= buf;
     ensure_directory(path::dirname(p));
     return p;
-- 
2.43.0


From b88749a07adc91ad6da0a140c0e3577c4fb2c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 59/61] fix: a mapped file isn't shared with the one of another
 process

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..618738a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -15,6 +15,7 @@
 #include <unistd.h>
 #endif
 #include <stdexcept>
+#include <string>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -253,7 +254,13 @@ namespace cmdr::mmap {
   class mmap {
   public:
     mmap(std::size_t size) {
-      _tmpname = path::tmpname_autoincr();
+      // other processes make theirs in the same folder
+#if defined(_WIN32)
+      auto pid = (long) ::GetCurrentProcessId();
+#else
+      auto pid = (long) ::getpid();
+#endif
+      _tmpname = path::tmpname_autoincr(("_mmap_" + std::to_string(pid) + "_%05d").c_str());
       io::create_sparse_file(_tmpname, size);
       _mm.connect(writeable, shareable, path::to_filename_h(_tmpname).c_str());
     }
-- 
2.43.0


From 930ea9b8e31a9fd885daecba81fbfdaaddde00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 60/61] fix: a mapping can be copied and moved

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 57 ++++++++++++++++++-------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index 618738a..4a3e364 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -14,8 +14,10 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #endif
+#include <cstring>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -25,6 +27,7 @@ namespace cmdr::mmap {
 
 #if defined(_WIN32)
 #define FILE_HANDLE HANDLE
+#define MAP_FAILED NULL
 #else
   typedef int FILE_HANDLE;
   const FILE_HANDLE INVALID_HANDLE_VALUE = -1;
@@ -50,27 +53,38 @@ namespace cmdr::mmap {
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
+      mmaplib(mmaplib const &mm)
+          : mmaplib() { __copy(mm); }
+      mmaplib(mmaplib &&mm)
+          : mmaplib() { __copy(std::move(mm)); }
       mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(o);
+        }
         return (*this);
       }
       mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(std::move(o));
+        }
         return (*this);
       }
 
     private:
+      // a copy has a mapping of its own
       void __copy(mmaplib const &mm) {
+        if (!mm.is_open()) return;
 #if defined(_WIN32)
-        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-        ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
+        FILE_HANDLE fd = INVALID_HANDLE_VALUE;
+        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &fd, 0, FALSE, DUPLICATE_SAME_ACCESS);
 #else
-        fd_    = dup2(0, mm.fd_);
+        FILE_HANDLE fd = ::dup(mm.fd_);
 #endif
-        size_ = mm.size_;
-        addr_ = mm.addr_;
+        connect(mm.writeable_, mm.shareable_, fd);
+        if (writeable_ && !shareable_ && is_open())
+          std::memcpy(addr_, mm.addr_, size_);
       }
       void __copy(mmaplib &&mm) {
 #if defined(_WIN32)
@@ -82,9 +96,12 @@ namespace cmdr::mmap {
         fd_    = mm.fd_;
         mm.fd_ = INVALID_HANDLE_VALUE;
 #endif
-        size_    = mm.size_;
-        addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        size_      = mm.size_;
+        addr_      = mm.addr_;
+        writeable_ = mm.writeable_;
+        shareable_ = mm.shareable_;
+        mm.size_   = 0;
+        mm.addr_   = MAP_FAILED;
       }
 
     public:
@@ -108,12 +125,9 @@ namespace cmdr::mmap {
 #endif
       std::size_t size_;
       void *addr_;
+      bool writeable_{}, shareable_{};
     };
 
-#if defined(_WIN32)
-#define MAP_FAILED NULL
-#endif
-
 
     inline mmaplib::mmaplib()
 #if defined(_WIN32)
@@ -154,6 +168,8 @@ namespace cmdr::mmap {
       // #endif
     }
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
+      writeable_ = writeable;
+      shareable_ = shareable;
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
         std::runtime_error("");
@@ -264,6 +280,15 @@ namespace cmdr::mmap {
       io::create_sparse_file(_tmpname, size);
       _mm.connect(writeable, shareable, path::to_filename_h(_tmpname).c_str());
     }
+    mmap(mmap const &) = default;
+    mmap &operator=(mmap const &o) {
+      if (this != &o) {
+        if (_tmpname != o._tmpname) io::delete_file(_tmpname);
+        _mm      = o._mm;
+        _tmpname = o._tmpname;
+      }
+      return (*this);
+    }
     ~mmap() {
       _mm.close();
       io::delete_file(_tmpname);
-- 
2.43.0


From eb7955f5f12688c7a28482bc5b75ac10a7b59b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 61/61] fix: DeepPink1_199 is colour 199

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index b6d742e..ecbc802 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -501,7 +501,7 @@ namespace cmdr::terminal::colors {
       Red1,
       DeepPink2,
       DeepPink1,
-      DeepPink1_198,
+      DeepPink1_198 = DeepPink1,
       DeepPink1_199,
 
       Magenta2_200 = 200,
-- 
2.43.0

