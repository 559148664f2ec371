From 63a8b929968f293f206dc6c49d46457133d9b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 01/56] fix: print both dashes of a long option in error
 messages

---
 src/opt_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt_parser.h b/src/opt_parser.h
index 2d08a43..6ab6478 100644
--- a/src/opt_parser.h
+++ b/src/opt_parser.h
@@ -337,7 +337,7 @@ bool opt_get_arg(struct opt_args *a, const char *opt, size_t len)
     p++;
 
     if (_opt_prefix_long && a->pfxlen == 2) {
-        pfx[1] = p[1];
+        pfx[1] = p[0];
         p++;
     }
 
-- 
2.43.0


From da92319382a194f68b5b75789901de2e030a803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 02/56] fix: don't drop default library names beginning with a,
 e or n

---
 src/generate.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..169e95a 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -158,9 +158,8 @@ std::string format_libname(const std::string &str, const std::string &pfx)
         /* no quotes */
         if (utils::prefixed_and_longer_case(str, "nq:")) {
             lib_a = lib_w = str.substr(3);
-            break;
         }
-        return {};
+        break;
 
     case 'E':
     case 'e':
@@ -169,9 +168,8 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             auto sub = str.substr(4);
             lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
-            break;
         }
-        return {};
+        break;
 
     case 'A':
     case 'a':
@@ -185,16 +183,18 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 /* GDO_LIBNAMEA(xxx,0) */
                 lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
                 lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
-                break;
             }
         }
-        return {};
+        break;
 
     default:
-        /* quote string */
+        break;
+    }
+
+    if (lib_a.empty()) {
+        /* not a special prefix, quote string */
         lib_a = quote_lib(str, false);
         lib_w = quote_lib(str, true);
-        break;
     }
 
     out = "#define " + pfx + "_HARDCODED_DEFAULT_LIBA " + lib_a + '\n' +
-- 
2.43.0


From 1a8495d6d6a0318fd3fc74d602154e1d7bf14f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 03/56] fix: replace adjacent stand-alone gdo identifiers and
 keep the text before prefixes beginning with a digit

---
 src/gendlopen.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..332de91 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -130,9 +130,9 @@ void gendlopen::prefix(const char *str)
     m_pfx_lower = utils::to_lower(m_pfx);
 
     /* set regex format string (used in substitute.cpp) */
-    m_fmt_upper = "$1" + m_pfx_upper + '_';
-    m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower + "$3";
+    m_fmt_upper = "$01" + m_pfx_upper + '_';
+    m_fmt_lower = "$01" + m_pfx_lower + '_';
+    m_fmt_standalone = "$01" + m_pfx_lower;
 }
 
 
@@ -152,7 +152,7 @@ std::string gendlopen::replace_prefixes(const std::string &input)
     );
 
     const std::regex reg_standalone(
-        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(" NOT_IDENT "|" LINE_END ")"
+        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(?=" NOT_IDENT "|" LINE_END ")"
     );
 
     std::string buf;
-- 
2.43.0


From a037c37f28faf767b72557be0c50defb556d3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 04/56] fix: don't pass on '...' as a parameter name in create
 mode

---
 src/parameter_names.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..64e1c75 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -240,7 +240,6 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
             continue;
         }
 
-- 
2.43.0


From 2eb673221078299f9f96bce7a6d50ff9c7c73097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 05/56] fix: remove only parentheses that belong together

---
 src/tokenize.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..984f071 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -290,6 +290,7 @@ namespace /* anonymous */
     void remove_superfluous_parentheses(vstring_t &v_in)
     {
         ventry_t v;
+        std::vector<int> open;  /* numbers of the parentheses not yet closed */
         int n = 0;
 
         /* minimum size is 4 -> "(())"" */
@@ -312,11 +313,15 @@ namespace /* anonymous */
                 n++;
                 tmp.ch = '(';
                 tmp.num = n;
+                open.push_back(n);
                 break;
             case ')':
                 tmp.ch = ')';
-                tmp.num = n;
-                n--;
+                tmp.num = 0;
+                if (!open.empty()) {
+                    tmp.num = open.back();
+                    open.pop_back();
+                }
                 break;
             default:
                 tmp.ch = 0;
-- 
2.43.0


From 54f415b69f0a7154cce9dcdcab9989e715d29f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 06/56] fix: alias visible wrapper functions correctly in
 single-file C headers

---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..99293f9 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -975,7 +975,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 57a4cafcb1071335b8aad60a9167b6c6f130e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 07/56] fix: point to the right line after an entry that was
 left out and count written lines correctly

---
 src/substitute.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..1cd7af2 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,14 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
-        if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+        if (!m_line_directive) {
+            return 0;
         }
 
-        return entry_lines;
+        /* number of the line following this entry */
+        save::ofs << "#line " << (m_substitute_lineno + line.line_count) << '\n';
+
+        return 1;
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From c914ff63c758e33f2834203e20f0a7968790c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 08/56] fix: don't add empty lines to templates loaded from
 -templates-path

---
 src/data.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..ae0b5ef 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -83,7 +83,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + '"';
             }
 
             data.push_back(entry);
@@ -92,6 +92,12 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
+
+            /* nothing left after the last linefeed */
+            if (!rv && entry.data.empty()) {
+                break;
+            }
+
             data.push_back(entry);
         }
 
-- 
2.43.0


From 518d314be24581af55afec5335664f83b3d30c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 09/56] fix: use license.h and filename_macros.h from
 -templates-path

---
 src/data.cpp      | 1 +
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 4 +++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index ae0b5ef..2791585 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -64,6 +64,7 @@ namespace /* anonymous */
 
         /* lookup path */
         path = dir + file;
+        data.clear();
 
         /* open file for reading */
         open_file ofs(path);
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..5a7fd57 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -106,7 +106,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t * const &ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 169e95a..1a3cec7 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -387,11 +387,13 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t * const &ptr)
 {
     size_t total_lines = 0;
 
+    /* loading may set a new pointer */
     load_template(file);
+    const template_t *list = ptr;
 
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
-- 
2.43.0


From eec87cee9dc48022060d1d37adc996fec9f1b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 10/56] fix: map the generated part after the filename macros
 to the output file with -line

---
 src/generate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generate.cpp b/src/generate.cpp
index 1a3cec7..bbeedc1 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -512,6 +512,7 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
-- 
2.43.0


From f8014adb2b023b697a601fc6908b081647a44f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 11/56] fix: report file system errors instead of aborting

---
 src/generate.cpp | 3 ++-
 src/main.cpp     | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index bbeedc1..f1cec41 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -356,7 +356,8 @@ void open_ofstream(const fs::path &opath, bool force)
 
     /* delete file to prevent writing data into symlink target */
     if (force) {
-        fs::remove(opath);
+        std::error_code ec;
+        fs::remove(opath, ec); /* checked below */
     }
 
     /* check symlink and not its target */
diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..a526d74 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,11 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::exception &e) {
+        /* i.e. std::filesystem::filesystem_error */
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 34be1d4c508c4a2022da7318485451438c64ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 12/56] fix: reject unbalanced declarations and read function
 pointers with multi-word return types

---
 src/parse.cpp | 60 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..16871d0 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -65,8 +65,36 @@ namespace /* anonymous */
     }
 
 
-    /* copy function parameters but don't mess up function pointer types */
-    void copy_parameters(const iter_t &it_beg, const iter_t &it_end, proto_t &proto)
+    /* check if all parentheses and brackets are balanced and
+     * not followed by anything other than parentheses or brackets */
+    bool is_balanced(const vstring_t &v)
+    {
+        std::string open;
+        bool closed = false;
+
+        for (const auto &e : v) {
+            const char c = utils::str_front(e);
+
+            if (c == '(' || c == '[') {
+                open.push_back(c);
+            } else if (c == ')' || c == ']') {
+                if (!open.ends_with((c == ')') ? '(' : '[')) {
+                    return false;
+                }
+                open.pop_back();
+                closed = true;
+            } else if (closed && open.empty()) {
+                return false;
+            }
+        }
+
+        return open.empty();
+    }
+
+
+    /* copy function parameters but don't mess up function pointer types;
+     * returns false if the parameter list ends before `it_end' */
+    bool copy_parameters(const iter_t &it_beg, const iter_t &it_end, proto_t &proto)
     {
         int scope = 0;
         vstring_t tokens;
@@ -79,7 +107,10 @@ namespace /* anonymous */
                 scope++;
                 break;
             case ')':
-                scope--;
+                if (--scope < 0) {
+                    proto.args_vec.clear();
+                    return false;
+                }
                 break;
             case ',':
                 if (scope == 0) {
@@ -98,6 +129,8 @@ namespace /* anonymous */
         if (!tokens.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
+
+        return true;
     }
 
 
@@ -166,9 +199,7 @@ namespace /* anonymous */
 
         /*  type (   symbol ) ( <..> )  */
         /*       ^ + 1      2 3 4       */
-        copy_parameters(it + 4, v.end() - 1, p);
-
-        return true;
+        return copy_parameters(it + 4, v.end() - 1, p);
     }
 
 
@@ -192,9 +223,7 @@ namespace /* anonymous */
 
         /*  type (   ** symbol ( <..>  )  )  */
         /*       ^ + n  1      2 3    -2 -1  */
-        copy_parameters(it + n + 3, v.end() - 2, p);
-
-        return true;
+        return copy_parameters(it + n + 3, v.end() - 2, p);
     }
 
 
@@ -205,10 +234,16 @@ namespace /* anonymous */
             return false;
         }
 
+        /* `TYPE TYPE ( * SYMBOL' or `TYPE TYPE ( SYMBOL ) ( )' */
+        if (utils::str_front(*(it + 1)) == '*' ||
+            !copy_parameters(it + 1 /* first lparen */, v.end() - 1, p))
+        {
+            return false;
+        }
+
         p.prototype = proto::function;
         parse::append_strings(p.type, v.begin(), it - 1 /* symbol name */);
         p.symbol = *(it - 1);
-        copy_parameters(it + 1 /* first lparen */, v.end() - 1, p);
 
         return true;
     }
@@ -227,6 +262,11 @@ namespace /* anonymous */
             return false;
         }
 
+        /* reject `foo(int (*a)' or `foo[3' */
+        if (!is_balanced(v)) {
+            return false;
+        }
+
         iter_t it = parse::find_first_not_pointer_or_ident(v);
 
         if (it == v.end()) {
-- 
2.43.0


From 8af24055a11f8489f9a53af0aa9eee0e3ab278ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 13/56] fix: reject empty parameters in every parameter mode

---
 src/parameter_names.cpp | 4 ++++
 src/parse.cpp           | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 64e1c75..61bf8e8 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -195,6 +195,10 @@ bool parse::get_parameter_names(proto_t &proto, param::names &parameter_names, s
 
     /* copy parameters */
     for (auto &v : proto.args_vec) {
+        if (v.empty()) {
+            msg = "empty parameter in function `" + proto.symbol + "'";
+            return false;
+        }
         append_strings(proto.args, v);
         proto.args += ", ";
     }
diff --git a/src/parse.cpp b/src/parse.cpp
index 16871d0..ea98489 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -126,7 +126,8 @@ namespace /* anonymous */
             tokens.push_back(*it);
         }
 
-        if (!tokens.empty()) {
+        /* keep an empty parameter after a comma, it's reported later */
+        if (!tokens.empty() || !proto.args_vec.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
 
-- 
2.43.0


From b0d922743fe63ef69f4385ac85b6ddfb14b9fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 14/56] fix: don't accept numbers as identifiers

---
 src/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.hpp b/src/parse.hpp
index 52f0118..6e93759 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -52,7 +52,7 @@ namespace parse
     }
 
     inline bool is_ident(char c) {
-        return (::isalnum(c) || c == '_');
+        return (::isalpha(c) || c == '_');
     }
 
     /* parameter_names.cpp */
-- 
2.43.0


From 6ae3a70a2bb8018aae09ff0339bb4d08a4ef78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 15/56] fix: keep the variable arguments of functions read from
 a Clang AST

---
 src/clang_ast.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..3b46958 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -86,6 +86,23 @@ std::string strip_line(const char *line)
 }
 
 
+/* check if the parameter list beginning at `pos' ends on `...' */
+bool is_variadic(const std::string &type, size_t pos)
+{
+    int scope = 0;
+
+    for ( ; pos < type.size(); pos++) {
+        if (type[pos] == '(') {
+            scope++;
+        } else if (type[pos] == ')' && --scope == 0) {
+            return type.substr(0, pos).ends_with("...");
+        }
+    }
+
+    return false;
+}
+
+
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
@@ -216,6 +233,11 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* variable arguments */
+        if (is_variadic(m.str(2), pos)) {
+            proto.args += "..., ";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 1bdb751205703924fd3076d7ccee3c56d2304328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 16/56] fix: don't report prefixed symbols from the list as
 missing in a Clang AST

---
 src/clang_ast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 3b46958..2da27a1 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -201,8 +201,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* erase from list if found, even if it's prefixed */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
-- 
2.43.0


From 1a94c1bd0df4d9bead66db46a51ce7762a23b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 17/56] fix: ignore redeclared symbols in a Clang AST

---
 src/clang_ast.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 2da27a1..730154b 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -213,6 +214,17 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
     }
 
+    /* ignore redeclarations */
+    auto same_symbol = [&proto] (const proto_t &e) {
+        return e.symbol == proto.symbol;
+    };
+
+    if (std::any_of(m_prototypes.begin(), m_prototypes.end(), same_symbol) ||
+        std::any_of(m_objects.begin(), m_objects.end(), same_symbol))
+    {
+        return 0;
+    }
+
     if (is_function) {
         /* function declaration */
         size_t pos;
-- 
2.43.0


From d83d1454c93ffa0db8b07dfdd314aa66e93f1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 18/56] fix: put parameter names into pointers to function
 pointers from a Clang AST

---
 src/clang_ast.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 730154b..9ef70f7 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -126,10 +126,16 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
-        /* function pointer */
+    if (utils::find(m.str(1), "(*", pos)) {
+        /* pointer to function or array, may be qualified: `(**)', `(*const)' */
         std::string str = m.str(1);
-        str.insert(pos + 2, name);
+        pos = str.find_first_of(")[", pos);
+
+        if (pos == std::string::npos) {
+            return false;
+        }
+
+        str.insert(pos, str[pos - 1] == '*' ? name : ' ' + name);
         args += str + ", ";
     } else {
         /* regular parameter */
-- 
2.43.0


From 472e124c9348235acfbd6a74f52f2c7591772d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 19/56] fix: create typedefs for all objects of pointer to
 function types from a Clang AST

---
 src/clang_ast.cpp |  3 ++-
 src/tokenize.cpp  | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 9ef70f7..7d9a202 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -266,7 +266,8 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(m.str(2), "(*")) {
+            /* may also be qualified or an array: `(**)', `(*const)', `(*[3])' */
             proto.prototype = proto::function_pointer;
         } else if (utils::find(m.str(2), '[')) {
             proto.prototype = proto::object_array;
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 984f071..77d89a9 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -178,14 +178,20 @@ namespace /* anonymous */
     {
         size_t pos;
 
-        if (!utils::find(type, "(*)", pos) || type.find('(') != pos) {
+        if (!utils::find(type, "(*", pos) || type.find('(') != pos) {
+            return {};
+        }
+
+        /* insert before closing parenthesis or array bracket */
+        pos = type.find_first_of(")[", pos);
+
+        if (pos == std::string::npos) {
             return {};
         }
 
         std::string s = type;
-        pos += 2; /* insert after '*' */
 
-        return s.insert(pos, name);
+        return s.insert(pos, type[pos - 1] == '*' ? name : ' ' + name);
     }
 
 
-- 
2.43.0


From fcc16fc7bd5146cbd7977f778a164185d922e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 20/56] fix: don't misread functions returning function
 pointers in a Clang AST

---
 src/clang_ast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 7d9a202..dee7cae 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -240,6 +240,10 @@ int gendlopen::get_declarations(filter::mode mode)
             return 0;
         }
 
+        if (utils::str_at(m.str(2), pos + 1) == '*') {
+            throw error("functions returning function pointers are not supported: " + proto.symbol);
+        }
+
         proto.prototype = proto::function;
 
         proto.type = m.str(2).substr(0, pos);
-- 
2.43.0


From 12d46252da721f68dcee9ce57c6dea8e308ec302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 21/56] fix: embed control characters and a final @ in
 templates like they are read at run time

---
 src/gen_templates_data.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index e55adcd..9457850 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -119,12 +119,17 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
             /* concatenate lines ending on »@\n« */
             if (READ_NEXT() == '\r' && READ_NEXT() != '\n') {
                 /* not a »\r\n« line ending */
-                fprintf(fpOut, "%s", "@\r");
+                fprintf(fpOut, "%s", "@\\r");
                 ungetc(c, fp);
                 break;
             }
 
-            if (c == '\n' || c == EOF) {
+            if (c == EOF) {
+                /* ignore at end of file */
+                break;
+            }
+
+            if (c == '\n') {
                 if (!multi_line) {
                     fprintf(fpOut, "%s", "\\n\" /* multiline entry */\n");
                     multi_line = true;
@@ -141,7 +146,8 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
 
         default:
             if (c < ' ' || c > '~') {
-                fprintf(fpOut, "\\x%02X", (unsigned char)c);
+                /* octal, a hexadecimal sequence would include following digits */
+                fprintf(fpOut, "\\%03o", (unsigned char)c);
             } else {
                 fprintf(fpOut, "%c", (char)c);
             }
-- 
2.43.0


From 576061a9a5b195c5d4eb448b71e58c3fcf07f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 22/56] fix: reject directories as input or template files
 instead of reading nothing

---
 src/open_file.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/open_file.cpp b/src/open_file.cpp
index 7d914f9..a71f07d 100644
--- a/src/open_file.cpp
+++ b/src/open_file.cpp
@@ -29,6 +29,7 @@
 # endif
 #endif
 
+#include <system_error>
 #include "open_file.hpp"
 
 
@@ -63,7 +64,14 @@ bool open_file::open(const std::string &path)
     if (path.empty() || path == "-") {
         m_fp = stdin;
     } else {
-        m_fp = ::fopen(path.c_str(), "rb");
+        std::error_code ec;
+
+        /* fopen() may succeed on a directory but reading from it does not */
+        if (std::filesystem::is_directory(path, ec)) {
+            m_fp = NULL;
+        } else {
+            m_fp = ::fopen(path.c_str(), "rb");
+        }
     }
 
     return is_open();
-- 
2.43.0


From c7d4a4996712241d8b0f0095f7f76bb19e71da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 23/56] fix: a line split ends at the first newline, don't
 swallow the line after an empty one

---
 src/lex.l    |   2 +-
 src/lex.yy.c | 224 +++++++++++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 115 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..8e60a77 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,7 +43,7 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\v\f\r]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..e41a98d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -456,36 +456,36 @@ static const YY_CHAR yy_meta[50] =
 
 static const flex_int16_t yy_base[273] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
+       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
+       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
+      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
+      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
+      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
+       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
+      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
+      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
+      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
+
+      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
+      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
+      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
+      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
+      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
+      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
+      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
+      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
+      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
+      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
+
+      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
+        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
+      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
+      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
+      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
+      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
+      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
+      366,  370
     } ;
 
 static const flex_int16_t yy_def[273] =
@@ -522,7 +522,7 @@ static const flex_int16_t yy_def[273] =
       261,  261
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[512] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
        20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
@@ -538,54 +538,52 @@ static const flex_int16_t yy_nxt[533] =
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
        94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
+       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
+      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
+       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
+      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
+       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
+       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
+      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
+      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
+      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
+      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
+      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
+      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
+      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
+      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
+      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
+
+      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
+      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
+      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
+      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
+      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
+      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
+      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
+      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+
+      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
+      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
+      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
+      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
+      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
+       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[512] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,51 +599,49 @@ static const flex_int16_t yy_chk[533] =
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
        61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
+       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
+       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
+       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
+      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
+      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
+      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+
+      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
+      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
+      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
+      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
+      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
+      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
+      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
+      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
+      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
+      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
+
+      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
+      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
+      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
+      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
+      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
+      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
+      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
+      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
+      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
+
+      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
+      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
+      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
+      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
+       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-- 
2.43.0


From cfa4d61ab5a58f0c77a2a38df43cd12d60f97c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 24/56] fix: an empty %option line doesn't swallow the
 following line

---
 src/lex.l    |   4 +-
 src/lex.yy.c | 390 ++++++++++++++++++++++++++-------------------------
 2 files changed, 200 insertions(+), 194 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 8e60a77..4213853 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -48,7 +48,8 @@ ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
-option              ^({bom})?"%option"[[:space:]]
+option              ^({bom})?"%option"[ \t\v\f\r]
+optempty            ^({bom})?"%option\n"
 optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
@@ -73,6 +74,7 @@ other               [*,()\[\]]
 <AST>\n                     { }
 <AST>.                      { }
 
+{optempty}                  { /* %option line without options */ }
 {option}                    { BEGIN(OPTION); /* %option line */ }
 <OPTION>{split}             { /* line split */ }
 <OPTION>{optstr}            { return LEX_OPTION; }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index e41a98d..4dab7ba 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[263] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
-        5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   23,   49,   42,   49,    5,    4,
+        5,    5,    5,    5,    9,   11,   10,    9,   16,   15,
+       16,   22,   21,   22,   30,   29,   30,   30,   34,   33,
+       34,    0,   17,   12,    0,   42,   42,   42,   42,   42,
+       42,    0,    0,   23,    0,    0,   42,    0,    0,    0,
+        0,    9,    0,    8,    0,   14,   19,    0,   24,   26,
+        0,    0,   28,   31,    0,   44,    0,    0,   42,   42,
+
+       42,   42,   42,   35,    0,    0,    0,   42,   35,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+        0,   18,   13,   40,   42,   42,   42,   42,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+       20,   25,   27,   32,   42,   42,   42,   39,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,   37,   38,   42,
+        0,    0,   42,    0,    0,    0,    0,    0,   41,    0,
+        0,   42,    0,    0,    0,    0,    0,    0,    0,    7,
+        6,   42,    0,    0,    0,    0,    0,    0,    0,   42,
+        0,    0,    0,    0,    0,   42,    0,    0,    0,    0,
+
+        0,    0,   42,    0,    0,    0,    0,   42,    0,    0,
+        0,    2,    0,   42,    0,    0,    2,    0,   42,    0,
+        0,    0,   42,    0,    0,    0,    0,   42,    0,    0,
+        0,   42,    0,    0,    0,   42,    0,    0,    3,    0,
+       42,    0,    3,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    1,    0,    1,    0,    0,
+        0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -454,7 +454,7 @@ static const YY_CHAR yy_meta[50] =
         4,    4,    4,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[274] =
     {   0,
         0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
        68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
@@ -475,51 +475,51 @@ static const flex_int16_t yy_base[273] =
       372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
       364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
       214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
-      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
-
-      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
-        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
-      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
-      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
-      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
-      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
-      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
-      366,  370
+      462,  354,  361,  361,  222,  138,  347,  349,  354,  344,
+      225,  352,  343,  222,  337,  341,  232,  355,  335,  345,
+
+      352,  329,  338,  315,  235,  290,  295,  295,  299,  238,
+      225,    0,  293,  295,  298,  301,    0,  302,  283,  288,
+      247,  285,  300,  228,  250,  312,  284,  281,  286,  295,
+      267,  277,  260,  262,  278,  262,  263,  238,    0,  253,
+      250,  258,    0,  252,  255,  258,  272,  237,  275,  151,
+      278,  184,  253,  285,  263,    0,   93,    0,  288,  300,
+       87,  462,  334,  338,  342,  346,  350,  354,   73,  358,
+      362,  366,  370
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[274] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      262,    1,  263,  263,  264,  264,  265,  265,  266,  266,
+      267,  267,  268,  268,  262,  262,  262,  262,  262,  262,
+      262,  269,  262,  262,  269,  269,  269,  269,  262,  262,
+      262,  262,  262,  262,  262,  262,  269,  262,  262,  262,
+      262,  262,  262,  262,  270,  262,  262,  270,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  269,  269,  269,  269,  269,
+      269,  262,  262,  262,  262,  262,  269,  262,  262,  262,
+      262,  270,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  269,  269,
+
+      269,  269,  269,  262,  262,  262,  262,  269,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  269,  269,  269,  269,  269,  262,  262,
+      269,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  269,  269,  269,  269,  262,  262,
+      269,  262,  262,  262,  262,  262,  262,  269,  269,  269,
+      262,  262,  269,  262,  262,  262,  262,  262,  269,  262,
+      262,  269,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  269,  262,  262,  262,  262,  262,  262,  262,  269,
+      262,  262,  262,  262,  262,  269,  262,  262,  262,  262,
+
+      262,  262,  269,  262,  262,  262,  262,  269,  262,  262,
+      262,  271,  262,  269,  262,  262,  271,  262,  269,  262,
+      262,  262,  269,  262,  262,  262,  262,  269,  262,  262,
+      262,  269,  262,  262,  262,  269,  262,  262,  272,  262,
+      269,  262,  272,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  273,  262,  273,  262,  262,
+      262,    0,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262
     } ;
 
 static const flex_int16_t yy_nxt[512] =
@@ -533,54 +533,54 @@ static const flex_int16_t yy_nxt[512] =
        50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
        56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
        57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
+      153,  246,   58,   58,   81,   68,   38,   44,   73,   73,
 
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
+       94,   83,   85,   86,   89,   85,  259,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
        91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
       112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
        85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
       115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
        97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
-      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
-      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
-      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
-      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
-      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
-      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
-      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
-      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
-      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
-
-      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
-      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
-      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
-      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       73,   74,  133,  110,  110,  110,  116,  117,  230,  116,
+      142,  136,  256,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  183,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  181,  153,  180,  173,
+      173,  173,  185,  185,  185,  200,  201,  155,  216,  201,
+      155,  229,  230,  174,  185,  185,  185,  197,  197,  197,
+      174,  242,  230,  186,  197,  197,  197,  210,  210,  210,
+      210,  210,  210,  245,  246,  186,  245,  246,  198,  225,
+      225,  225,  225,  225,  225,  198,  257,  246,  211,  253,
+      250,  211,  237,  237,  237,  237,  237,  237,  249,  248,
+      226,  247,  244,  226,  251,  251,  251,  254,  254,  254,
+      251,  251,  251,  238,  241,  240,  238,  254,  254,  254,
+
+      260,  260,  260,  239,  236,  252,  235,  234,  255,  233,
+      232,  252,  260,  260,  260,  231,  201,  228,  255,  227,
+      224,  261,  223,  222,  221,  220,  219,  218,  215,  214,
+      213,  212,  209,  261,   39,   39,   39,   39,   45,   45,
        45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
-      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
-      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
-      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
-      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  208,
+      207,   82,  217,  217,  206,  217,  243,  243,  205,  243,
+      258,  258,  204,  258,  153,  203,  202,  157,  199,  196,
+      195,  194,  193,  192,  191,  190,  189,  188,  187,  184,
+      182,  179,  178,  177,  176,  175,  172,  171,  170,  169,
 
       168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
       157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
       147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
       130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
       104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
-       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  262,
+       40,   15,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262
     } ;
 
 static const flex_int16_t yy_chk[512] =
@@ -592,41 +592,41 @@ static const flex_int16_t yy_chk[512] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
         2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
         7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
+       11,   12,    9,   10,  137,   13,  269,   14,    4,   11,
        12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
+      137,  261,   11,   12,   44,   25,    2,    4,   32,   32,
 
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
+       61,   48,   51,   51,   57,   51,  257,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
        57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
        80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
-      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       85,  111,   88,   88,   75,   88,  186,   79,   91,   91,
+      186,   91,   92,   92,  155,   92,   95,   95,  155,   95,
        97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
-      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+      109,  109,  109,  110,  110,  110,  116,  116,  252,  116,
+      119,  111,  250,  119,  136,  105,  109,  118,  118,  136,
 
       118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
       154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
-      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
-      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
-      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
-      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
-      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
-      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
-      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
-
-      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
-      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
-      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
-      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
-      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
-      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
-      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
-      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
-      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      173,  173,  176,  176,  176,  194,  194,  138,  211,  211,
+      154,  224,  224,  164,  185,  185,  185,  191,  191,  191,
+      173,  238,  238,  176,  197,  197,  197,  205,  205,  205,
+      210,  210,  210,  241,  241,  185,  253,  253,  191,  221,
+      221,  221,  225,  225,  225,  197,  255,  255,  205,  248,
+      246,  210,  233,  233,  233,  237,  237,  237,  245,  244,
+      221,  242,  240,  225,  247,  247,  247,  249,  249,  249,
+      251,  251,  251,  233,  236,  235,  237,  254,  254,  254,
+
+      259,  259,  259,  234,  232,  247,  231,  230,  249,  229,
+      228,  251,  260,  260,  260,  227,  226,  223,  254,  222,
+      220,  259,  219,  218,  216,  215,  214,  213,  209,  208,
+      207,  206,  204,  260,  263,  263,  263,  263,  264,  264,
+      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
+      267,  267,  267,  267,  268,  268,  268,  268,  270,  203,
+      202,  270,  271,  271,  201,  271,  272,  272,  200,  272,
+      273,  273,  199,  273,  198,  196,  195,  193,  192,  190,
+      189,  188,  187,  184,  183,  182,  179,  178,  177,  175,
       172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
 
       157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
@@ -635,21 +635,21 @@ static const flex_int16_t yy_chk[512] =
       107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
        72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
        38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+        3,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
 
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
+      262
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
-0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 
+    1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +957,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 263 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 262 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1017,167 +1017,167 @@ YY_RULE_SETUP
 case 6:
 /* rule 6 can match eol */
 YY_RULE_SETUP
-{ BEGIN(OPTION); /* %option line */ }
+{ /* %option line without options */ }
 	YY_BREAK
 case 7:
-/* rule 7 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
 case 8:
+/* rule 8 can match eol */
 YY_RULE_SETUP
-{ return LEX_OPTION; }
+{ /* line split */ }
 	YY_BREAK
 case 9:
-/* rule 9 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */}
+{ return LEX_OPTION; }
 	YY_BREAK
 case 10:
+/* rule 10 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */}
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ }
 	YY_BREAK
 case 12:
-/* rule 12 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 14:
 /* rule 14 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ }
 	YY_BREAK
 case 17:
-/* rule 17 can match eol */
 YY_RULE_SETUP
 { BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 18:
+/* rule 18 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 19:
-/* rule 19 can match eol */
 YY_RULE_SETUP
 { BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 20:
 /* rule 20 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 21:
+/* rule 21 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 22:
-/* rule 22 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE); }
+{ }
 	YY_BREAK
 case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
+{ BEGIN(PRE); }
 	YY_BREAK
 case 24:
-/* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
 	YY_BREAK
 case 26:
-/* rule 26 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1185,26 +1185,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1511,7 +1515,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 263 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1539,11 +1543,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 263 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 262);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From d8f8b1d71dced403b92dc15befd5141e3cd09944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 25/56] fix: read comments and literals within preprocessor
 lines like a C compiler

---
 src/lex.l    |   9 +-
 src/lex.yy.c | 519 ++++++++++++++++++++++++++-------------------------
 2 files changed, 273 insertions(+), 255 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 4213853..a843ac2 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -54,6 +54,8 @@ optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
 
+string              (\"([^"\\\n]|{split}|\\.)*\")|('([^'\\\n]|{split}|\\.)*')
+
 identifier          [a-zA-Z0-9_]+
 other               [*,()\[\]]
 
@@ -96,16 +98,17 @@ other               [*,()\[\]]
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
+<PRE>{string}               { /* no comments in string and character literals */ }
 <PRE>{split}                { /* line split */ }
 <PRE>\n                     { BEGIN(INITIAL); /* end */ }
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}"/"  { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 4dab7ba..9ecbfff 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 50
-#define YY_END_OF_BUFFER 51
+#define YY_NUM_RULES 51
+#define YY_END_OF_BUFFER 52
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,38 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[263] =
+static const flex_int16_t yy_accept[272] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
-       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
-       49,   36,   36,   49,   23,   49,   42,   49,    5,    4,
+        0,    0,    0,    0,   52,   50,   37,   37,   44,   50,
+       50,   43,   49,   48,   43,   43,   43,   43,   46,   47,
+       50,   37,   37,   50,   23,   50,   43,   50,    5,    4,
         5,    5,    5,    5,    9,   11,   10,    9,   16,   15,
-       16,   22,   21,   22,   30,   29,   30,   30,   34,   33,
-       34,    0,   17,   12,    0,   42,   42,   42,   42,   42,
-       42,    0,    0,   23,    0,    0,   42,    0,    0,    0,
-        0,    9,    0,    8,    0,   14,   19,    0,   24,   26,
-        0,    0,   28,   31,    0,   44,    0,    0,   42,   42,
-
-       42,   42,   42,   35,    0,    0,    0,   42,   35,    0,
+       16,   22,   21,   22,   31,   30,   31,   31,   31,   31,
+       35,   34,   35,    0,   17,   12,    0,   43,   43,   43,
+       43,   43,   43,    0,    0,   23,    0,    0,   43,    0,
+        0,    0,    0,    9,    0,    8,    0,   14,   19,    0,
+        0,   28,    0,    0,    0,   24,   26,    0,    0,   29,
+
+       32,    0,   45,    0,    0,   43,   43,   43,   43,   43,
+       36,    0,    0,    0,   43,   36,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   18,   13,   40,   42,   42,   42,   42,    0,    0,
-       42,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       20,   25,   27,   32,   42,   42,   42,   39,    0,    0,
-       42,    0,    0,    0,    0,    0,    0,   37,   38,   42,
-        0,    0,   42,    0,    0,    0,    0,    0,   41,    0,
-        0,   42,    0,    0,    0,    0,    0,    0,    0,    7,
-        6,   42,    0,    0,    0,    0,    0,    0,    0,   42,
-        0,    0,    0,    0,    0,   42,    0,    0,    0,    0,
-
-        0,    0,   42,    0,    0,    0,    0,   42,    0,    0,
-        0,    2,    0,   42,    0,    0,    2,    0,   42,    0,
-        0,    0,   42,    0,    0,    0,    0,   42,    0,    0,
-        0,   42,    0,    0,    0,   42,    0,    0,    3,    0,
-       42,    0,    3,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    1,    0,    1,    0,    0,
-        0,    0
+       18,   13,   41,   43,   43,   43,   43,    0,    0,   43,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   20,
+       25,   27,   33,   43,   43,   43,   40,    0,    0,   43,
+        0,    0,    0,    0,    0,    0,   38,   39,   43,    0,
+        0,   43,    0,    0,    0,    0,    0,   42,    0,    0,
+       43,    0,    0,    0,    0,    0,    0,    0,    7,    6,
+       43,    0,    0,    0,    0,    0,    0,    0,   43,    0,
+
+        0,    0,    0,    0,   43,    0,    0,    0,    0,    0,
+        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
+        2,    0,   43,    0,    0,    2,    0,   43,    0,    0,
+        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
+       43,    0,    0,    0,   43,    0,    0,    3,    0,   43,
+        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
+        0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,238 +419,247 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[274] =
+static const flex_int16_t yy_base[285] =
     {   0,
-        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
-       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
-      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
-      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
-      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
-       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
-      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
-      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
-      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
-
-      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
-      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
-      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
-      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
-      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
-      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
-      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
-      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      462,  354,  361,  361,  222,  138,  347,  349,  354,  344,
-      225,  352,  343,  222,  337,  341,  232,  355,  335,  345,
-
-      352,  329,  338,  315,  235,  290,  295,  295,  299,  238,
-      225,    0,  293,  295,  298,  301,    0,  302,  283,  288,
-      247,  285,  300,  228,  250,  312,  284,  281,  286,  295,
-      267,  277,  260,  262,  278,  262,  263,  238,    0,  253,
-      250,  258,    0,  252,  255,  258,  272,  237,  275,  151,
-      278,  184,  253,  285,  263,    0,   93,    0,  288,  300,
-       87,  462,  334,  338,  342,  346,  350,  354,   73,  358,
-      362,  366,  370
+        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
+       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
+      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
+      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
+      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
+      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
+      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
+      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
+      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
+
+      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
+      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
+      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
+      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
+      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
+      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
+      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
+      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
+      385,  236,  170,  390,  250,  391,  394,  388,  498,  498,
+      388,  395,  395,  253,  198,  381,  383,  388,  378,  258,
+
+      385,  373,  252,  364,  365,  261,  376,  354,  367,  351,
+      331,  339,  342,  264,  317,  322,  322,  326,  267,  255,
+        0,  320,  322,  325,  328,    0,  329,  310,  316,  275,
+      312,  321,  258,  289,  335,  304,  305,  309,  319,  290,
+      297,  292,  282,  304,  275,  297,  283,    0,  261,  291,
+      259,    0,  241,  223,  196,  300,  151,  303,  107,  306,
+      138,  294,  314,  297,    0,   91,    0,  328,  331,   76,
+      498,  367,  371,  375,  379,  383,  387,   71,  391,  395,
+      399,  403,  407,  411
     } ;
 
-static const flex_int16_t yy_def[274] =
+static const flex_int16_t yy_def[285] =
     {   0,
-      262,    1,  263,  263,  264,  264,  265,  265,  266,  266,
-      267,  267,  268,  268,  262,  262,  262,  262,  262,  262,
-      262,  269,  262,  262,  269,  269,  269,  269,  262,  262,
-      262,  262,  262,  262,  262,  262,  269,  262,  262,  262,
-      262,  262,  262,  262,  270,  262,  262,  270,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  269,  269,  269,  269,  269,
-      269,  262,  262,  262,  262,  262,  269,  262,  262,  262,
-      262,  270,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  269,  269,
-
-      269,  269,  269,  262,  262,  262,  262,  269,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  269,  269,  269,  269,  269,  262,  262,
-      269,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  269,  269,  269,  269,  262,  262,
-      269,  262,  262,  262,  262,  262,  262,  269,  269,  269,
-      262,  262,  269,  262,  262,  262,  262,  262,  269,  262,
-      262,  269,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  269,  262,  262,  262,  262,  262,  262,  262,  269,
-      262,  262,  262,  262,  262,  269,  262,  262,  262,  262,
-
-      262,  262,  269,  262,  262,  262,  262,  269,  262,  262,
-      262,  271,  262,  269,  262,  262,  271,  262,  269,  262,
-      262,  262,  269,  262,  262,  262,  262,  269,  262,  262,
-      262,  269,  262,  262,  262,  269,  262,  262,  272,  262,
-      269,  262,  272,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  273,  262,  273,  262,  262,
-      262,    0,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262
+      271,    1,  272,  272,  273,  273,  274,  274,  275,  275,
+      276,  276,  277,  277,  271,  271,  271,  271,  271,  271,
+      271,  278,  271,  271,  278,  278,  278,  278,  271,  271,
+      271,  271,  271,  271,  271,  271,  278,  271,  271,  271,
+      271,  271,  271,  271,  279,  271,  271,  279,  271,  271,
+      271,  271,  271,  271,  271,  271,  280,  281,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  278,  278,  278,
+      278,  278,  278,  271,  271,  271,  271,  271,  278,  271,
+      271,  271,  271,  279,  271,  271,  271,  271,  271,  271,
+      280,  271,  280,  281,  281,  271,  271,  271,  271,  271,
+
+      271,  271,  271,  271,  271,  278,  278,  278,  278,  278,
+      271,  271,  271,  271,  278,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  280,  281,  271,  271,  271,  271,
+      271,  271,  278,  278,  278,  278,  278,  271,  271,  278,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  278,  278,  278,  278,  271,  271,  278,
+      271,  271,  271,  271,  271,  271,  278,  278,  278,  271,
+      271,  278,  271,  271,  271,  271,  271,  278,  271,  271,
+      278,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      278,  271,  271,  271,  271,  271,  271,  271,  278,  271,
+
+      271,  271,  271,  271,  278,  271,  271,  271,  271,  271,
+      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
+      282,  271,  278,  271,  271,  282,  271,  278,  271,  271,
+      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
+      278,  271,  271,  271,  278,  271,  271,  283,  271,  278,
+      271,  283,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  284,  271,  284,  271,  271,  271,
+        0,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271
     } ;
 
-static const flex_int16_t yy_nxt[512] =
+static const flex_int16_t yy_nxt[550] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  246,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  259,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
-      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
-       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
-      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
-       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  230,  116,
-      142,  136,  256,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  183,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  181,  153,  180,  173,
-      173,  173,  185,  185,  185,  200,  201,  155,  216,  201,
-      155,  229,  230,  174,  185,  185,  185,  197,  197,  197,
-      174,  242,  230,  186,  197,  197,  197,  210,  210,  210,
-      210,  210,  210,  245,  246,  186,  245,  246,  198,  225,
-      225,  225,  225,  225,  225,  198,  257,  246,  211,  253,
-      250,  211,  237,  237,  237,  237,  237,  237,  249,  248,
-      226,  247,  244,  226,  251,  251,  251,  254,  254,  254,
-      251,  251,  251,  238,  241,  240,  238,  254,  254,  254,
-
-      260,  260,  260,  239,  236,  252,  235,  234,  255,  233,
-      232,  252,  260,  260,  260,  231,  201,  228,  255,  227,
-      224,  261,  223,  222,  221,  220,  219,  218,  215,  214,
-      213,  212,  209,  261,   39,   39,   39,   39,   45,   45,
-       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  208,
-      207,   82,  217,  217,  206,  217,  243,  243,  205,  243,
-      258,  258,  204,  258,  153,  203,  202,  157,  199,  196,
-      195,  194,  193,  192,  191,  190,  189,  188,  187,  184,
-      182,  179,  178,  177,  176,  175,  172,  171,  170,  169,
-
-      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
-      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
-      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
-      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
-      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  262,
-       40,   15,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      255,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  268,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  239,  102,  112,  112,  112,  117,  117,  117,
+      265,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  192,  126,  127,  128,  143,  127,   99,
+      100,  162,   99,  129,  130,  262,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
+      259,  152,  125,   91,  113,  125,   92,  138,  121,  145,
+      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
+      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
+      163,  163,  182,  182,  182,   95,  189,  190,  258,  189,
+      182,  182,  182,  121,  164,  209,  210,  122,  225,  210,
+      164,  238,  239,  183,  194,  194,  194,  194,  194,  194,
+      257,  183,  206,  206,  206,  206,  206,  206,  219,  219,
+      219,  219,  219,  219,  256,  195,  251,  239,  195,  234,
+      234,  234,  253,  207,  254,  255,  207,  254,  255,  220,
+
+      266,  255,  220,  234,  234,  234,  246,  246,  246,  250,
+      235,  246,  246,  246,  260,  260,  260,  263,  263,  263,
+      260,  260,  260,  249,  235,  248,  245,  247,  263,  263,
+      263,  244,  247,  243,  242,  261,  241,  240,  264,  210,
+      237,  261,  269,  269,  269,  269,  269,  269,  236,  264,
+      233,  232,  231,  230,  229,  228,  227,  224,  223,  222,
+      221,  218,  217,  270,  216,  215,  270,   39,   39,   39,
+       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
+       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
+       61,   84,  214,  213,   84,   91,   91,  162,   91,   94,
+
+       94,  212,   94,  226,  226,  211,  226,  252,  252,  166,
+      252,  267,  267,  208,  267,  205,  204,  203,  202,  201,
+      200,  199,  198,  197,  196,  193,  191,  188,  187,  186,
+      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
+       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
+      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
+      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
+      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
+       74,   73,   72,   71,   64,  271,   40,   15,  271,  271,
+
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271
     } ;
 
-static const flex_int16_t yy_chk[512] =
+static const flex_int16_t yy_chk[550] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  269,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  261,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  257,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
-       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  186,   79,   91,   91,
-      186,   91,   92,   92,  155,   92,   95,   95,  155,   95,
-       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  252,  116,
-      119,  111,  250,  119,  136,  105,  109,  118,  118,  136,
-
-      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
-      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  194,  194,  138,  211,  211,
-      154,  224,  224,  164,  185,  185,  185,  191,  191,  191,
-      173,  238,  238,  176,  197,  197,  197,  205,  205,  205,
-      210,  210,  210,  241,  241,  185,  253,  253,  191,  221,
-      221,  221,  225,  225,  225,  197,  255,  255,  205,  248,
-      246,  210,  233,  233,  233,  237,  237,  237,  245,  244,
-      221,  242,  240,  225,  247,  247,  247,  249,  249,  249,
-      251,  251,  251,  233,  236,  235,  237,  254,  254,  254,
-
-      259,  259,  259,  234,  232,  247,  231,  230,  249,  229,
-      228,  251,  260,  260,  260,  227,  226,  223,  254,  222,
-      220,  259,  219,  218,  216,  215,  214,  213,  209,  208,
-      207,  206,  204,  260,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  268,  268,  268,  268,  270,  203,
-      202,  270,  271,  271,  201,  271,  272,  272,  200,  272,
-      273,  273,  199,  273,  198,  196,  195,  193,  192,  190,
-      189,  188,  187,  184,  183,  182,  179,  178,  177,  175,
-      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
-
-      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
-      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
-      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
-       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
-       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-
-      262,  262,  262,  262,  262,  262,  262,  262,  262,  262,
-      262
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  278,    9,   11,   10,   25,    7,
+      270,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  266,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  261,   63,   77,   77,   77,   81,   81,   81,
+      259,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
+       99,  146,   99,  102,  102,  257,  102,  104,  104,  105,
+      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
+      255,  128,  125,  125,  112,  125,  125,  116,  195,  118,
+      126,  126,  195,  126,  117,  127,  127,  126,  127,  129,
+      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
+      163,  163,  173,  173,  173,  126,  180,  180,  254,  180,
+      182,  182,  182,  164,  147,  203,  203,  164,  220,  220,
+      163,  233,  233,  173,  185,  185,  185,  194,  194,  194,
+      253,  182,  200,  200,  200,  206,  206,  206,  214,  214,
+      214,  219,  219,  219,  251,  185,  247,  247,  194,  230,
+      230,  230,  249,  200,  250,  250,  206,  262,  262,  214,
+
+      264,  264,  219,  234,  234,  234,  242,  242,  242,  245,
+      230,  246,  246,  246,  256,  256,  256,  258,  258,  258,
+      260,  260,  260,  244,  234,  243,  241,  242,  263,  263,
+      263,  240,  246,  239,  238,  256,  237,  236,  258,  235,
+      232,  260,  268,  268,  268,  269,  269,  269,  231,  263,
+      229,  228,  227,  225,  224,  223,  222,  218,  217,  216,
+      215,  213,  212,  268,  211,  210,  269,  272,  272,  272,
+      272,  273,  273,  273,  273,  274,  274,  274,  274,  275,
+      275,  275,  275,  276,  276,  276,  276,  277,  277,  277,
+      277,  279,  209,  208,  279,  280,  280,  207,  280,  281,
+
+      281,  205,  281,  282,  282,  204,  282,  283,  283,  202,
+      283,  284,  284,  201,  284,  199,  198,  197,  196,  193,
+      192,  191,  188,  187,  186,  184,  181,  179,  177,  176,
+      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
+      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
+      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
+      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
+      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
+       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
+       31,   28,   27,   26,   20,   15,    3,  271,  271,  271,
+
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
+      271,  271,  271,  271,  271,  271,  271,  271,  271
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[51] =
+static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
 0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 
-    1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +967,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 263 )
+				if ( yy_current_state >= 272 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 262 );
+		while ( yy_current_state != 271 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1103,7 +1113,7 @@ YY_RULE_SETUP
 case 25:
 /* rule 25 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
@@ -1117,71 +1127,72 @@ YY_RULE_SETUP
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* no comments in string and character literals */ }
 	YY_BREAK
 case 29:
 /* rule 29 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 30:
+/* rule 30 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 32:
-/* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 34:
+/* rule 34 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 36:
-/* rule 36 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
@@ -1189,26 +1200,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 51:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1515,7 +1530,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 263 )
+			if ( yy_current_state >= 272 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1543,11 +1558,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 263 )
+		if ( yy_current_state >= 272 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 262);
+	yy_is_jam = (yy_current_state == 271);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 81c93f4e095634f6f1b85eace511c376af55ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 26/56] fix: ignore operators, bit-fields and literals within
 structs, unions, enums and typedefs

---
 src/lex.h        |   3 +-
 src/lex.l        |  13 +-
 src/lex.yy.c     | 463 +++++++++++++++++++++++++----------------------
 src/tokenize.cpp |   4 +
 4 files changed, 260 insertions(+), 223 deletions(-)

diff --git a/src/lex.h b/src/lex.h
index ef42a73..7e1a215 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -22,7 +22,8 @@ enum {
     LEX_CURLY_OPEN,
     LEX_CURLY_CLOSE,
     LEX_EQUAL,
-    LEX_SEMICOLON
+    LEX_SEMICOLON,
+    LEX_ILLEGAL
 };
 
 extern const char *lex_errmsg;
diff --git a/src/lex.l b/src/lex.l
index a843ac2..16d212a 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -129,7 +129,8 @@ other               [*,()\[\]]
 "="                         { return LEX_EQUAL; }
 ";"                         { return LEX_SEMICOLON; }
 
-.                           { set_illegal_char(); return LEX_ERROR; }
+{string}                    { set_illegal_char(); return LEX_ILLEGAL; }
+.                           { set_illegal_char(); return LEX_ILLEGAL; }
 
 %%
 
@@ -152,10 +153,18 @@ void set_illegal_char()
 {
     const char *fmt = "illegal character [%c] at line %d";
     unsigned char c = (unsigned char)*yytext;
+    int line = yylineno;
+
+    /* literals may contain line splits */
+    for (const char *p = yytext; *p != 0; p++) {
+        if (*p == '\n') {
+            line--;
+        }
+    }
 
     if (!isgraph((int)*yytext)) {
         fmt = "illegal character [0x%02X] at line %d";
     }
 
-    SNPRINTF(errbuf, sizeof(errbuf), fmt, c, yylineno);
+    SNPRINTF(errbuf, sizeof(errbuf), fmt, c, line);
 }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 9ecbfff..c1bf74b 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,38 +380,38 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[272] =
+static const flex_int16_t yy_accept[281] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   52,   50,   37,   37,   44,   50,
-       50,   43,   49,   48,   43,   43,   43,   43,   46,   47,
-       50,   37,   37,   50,   23,   50,   43,   50,    5,    4,
-        5,    5,    5,    5,    9,   11,   10,    9,   16,   15,
-       16,   22,   21,   22,   31,   30,   31,   31,   31,   31,
-       35,   34,   35,    0,   17,   12,    0,   43,   43,   43,
-       43,   43,   43,    0,    0,   23,    0,    0,   43,    0,
-        0,    0,    0,    9,    0,    8,    0,   14,   19,    0,
-        0,   28,    0,    0,    0,   24,   26,    0,    0,   29,
-
-       32,    0,   45,    0,    0,   43,   43,   43,   43,   43,
-       36,    0,    0,    0,   43,   36,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       18,   13,   41,   43,   43,   43,   43,    0,    0,   43,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,   20,
-       25,   27,   33,   43,   43,   43,   40,    0,    0,   43,
-        0,    0,    0,    0,    0,    0,   38,   39,   43,    0,
-        0,   43,    0,    0,    0,    0,    0,   42,    0,    0,
-       43,    0,    0,    0,    0,    0,    0,    0,    7,    6,
-       43,    0,    0,    0,    0,    0,    0,    0,   43,    0,
-
-        0,    0,    0,    0,   43,    0,    0,    0,    0,    0,
-        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
-        2,    0,   43,    0,    0,    2,    0,   43,    0,    0,
-        0,   43,    0,    0,    0,    0,   43,    0,    0,    0,
-       43,    0,    0,    0,   43,    0,    0,    3,    0,   43,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+        0,    0,    0,    0,   53,   51,   37,   37,   51,   51,
+       44,   51,   51,   43,   49,   48,   43,   43,   43,   43,
+       46,   47,   51,   37,   37,   51,   23,   51,   43,   51,
+        5,    4,    5,    5,    5,    5,    9,   11,   10,    9,
+       16,   15,   16,   22,   21,   22,   31,   30,   31,   31,
+       31,   31,   35,   34,   35,    0,   50,    0,    0,    0,
+        0,   17,   12,    0,   43,   43,   43,   43,   43,   43,
+        0,    0,   23,    0,    0,   43,    0,    0,    0,    0,
+        9,    0,    8,    0,   14,   19,    0,    0,   28,    0,
+
+        0,    0,   24,   26,    0,    0,   29,   32,    0,    0,
+        0,   45,    0,    0,   43,   43,   43,   43,   43,   36,
+        0,    0,    0,   43,   36,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   18,
+       13,   41,   43,   43,   43,   43,    0,    0,   43,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,   20,   25,
+       27,   33,   43,   43,   43,   40,    0,    0,   43,    0,
+        0,    0,    0,    0,    0,   38,   39,   43,    0,    0,
+       43,    0,    0,    0,    0,    0,   42,    0,    0,   43,
+        0,    0,    0,    0,    0,    0,    0,    7,    6,   43,
+
+        0,    0,    0,    0,    0,    0,    0,   43,    0,    0,
+        0,    0,    0,   43,    0,    0,    0,    0,    0,    0,
+       43,    0,    0,    0,    0,   43,    0,    0,    0,    2,
+        0,   43,    0,    0,    2,    0,   43,    0,    0,    0,
+       43,    0,    0,    0,    0,   43,    0,    0,    0,   43,
+        0,    0,    0,   43,    0,    0,    3,    0,   43,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -456,141 +456,148 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[285] =
+static const flex_int16_t yy_base[296] =
     {   0,
-        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
-       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
-      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
-      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
-      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
-      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
-      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
-      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
-      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
-
-      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
-      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
-      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
-      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
-      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
-      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
-      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
-      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
-      385,  236,  170,  390,  250,  391,  394,  388,  498,  498,
-      388,  395,  395,  253,  198,  381,  383,  388,  378,  258,
-
-      385,  373,  252,  364,  365,  261,  376,  354,  367,  351,
-      331,  339,  342,  264,  317,  322,  322,  326,  267,  255,
-        0,  320,  322,  325,  328,    0,  329,  310,  316,  275,
-      312,  321,  258,  289,  335,  304,  305,  309,  319,  290,
-      297,  292,  282,  304,  275,  297,  283,    0,  261,  291,
-      259,    0,  241,  223,  196,  300,  151,  303,  107,  306,
-      138,  294,  314,  297,    0,   91,    0,  328,  331,   76,
-      498,  367,  371,  375,  379,  383,  387,   71,  391,  395,
-      399,  403,  407,  411
+        0,   50,  524,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  526,  528,  528,  528,   69,   70,
+      528,  512,   88,    0,  528,  528,   67,  482,  478,  485,
+      528,  528,  472,  103,  111,  494,  528,  481,  478,  468,
+      528,  528,  490,  510,  502,  107,    0,  528,  528,  118,
+      528,  528,  122,  528,  528,   95,  528,  528,  111,  117,
+      118,  128,  528,  528,  114,  128,  528,  134,  126,  144,
+      500,  528,  528,  149,    0,  469,  469,  470,  470,  474,
+      457,  154,  528,  147,  467,  476,  454,  150,   53,  154,
+        0,  166,  528,  171,  528,  528,  175,  154,  528,  182,
+
+      161,  187,  528,  528,  191,  195,  528,  528,  199,  203,
+      208,  528,  213,  129,  467,  470,  458,  468,  461,  528,
+      204,  475,  455,  459,  220,  216,  167,  483,  468,  450,
+      463,  234,  477,  239,  244,  252,  215,  256,  476,  528,
+      528,    0,  449,  458,  456,  449,  445,  450,  442,  456,
+      443,  475,  467,  251,  246,  257,  441,  437,  528,  528,
+      528,  528,  439,  433,  442,    0,  444,  434,  436,  444,
+      440,  260,  178,  438,  447,    0,    0,  433,  428,  427,
+      434,  263,  422,  435,  418,  427,    0,  417,  262,  415,
+      266,  247,  420,  269,  421,  424,  418,  528,  528,  418,
+
+      425,  425,  272,  213,  411,  413,  418,  408,  275,  416,
+      406,  290,  397,  398,  297,  409,  387,  397,  407,  385,
+      391,  367,  300,  342,  346,  346,  349,  303,  293,    0,
+      343,  344,  347,  349,    0,  350,  330,  336,  306,  333,
+      330,  296,  309,  344,  313,  314,  318,  328,  299,  310,
+      312,  294,  317,  235,  315,  299,    0,  230,  302,  234,
+        0,  218,  186,  192,  337,  156,  340,  106,  343,  143,
+      305,  346,  330,    0,  116,    0,  349,  352,   87,  528,
+      388,  392,  396,  400,  404,  408,  412,  416,   68,  420,
+      424,  428,  432,  436,  440
+
     } ;
 
-static const flex_int16_t yy_def[285] =
+static const flex_int16_t yy_def[296] =
     {   0,
-      271,    1,  272,  272,  273,  273,  274,  274,  275,  275,
-      276,  276,  277,  277,  271,  271,  271,  271,  271,  271,
-      271,  278,  271,  271,  278,  278,  278,  278,  271,  271,
-      271,  271,  271,  271,  271,  271,  278,  271,  271,  271,
-      271,  271,  271,  271,  279,  271,  271,  279,  271,  271,
-      271,  271,  271,  271,  271,  271,  280,  281,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  278,  278,  278,
-      278,  278,  278,  271,  271,  271,  271,  271,  278,  271,
-      271,  271,  271,  279,  271,  271,  271,  271,  271,  271,
-      280,  271,  280,  281,  281,  271,  271,  271,  271,  271,
-
-      271,  271,  271,  271,  271,  278,  278,  278,  278,  278,
-      271,  271,  271,  271,  278,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  280,  281,  271,  271,  271,  271,
-      271,  271,  278,  278,  278,  278,  278,  271,  271,  278,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  278,  278,  278,  278,  271,  271,  278,
-      271,  271,  271,  271,  271,  271,  278,  278,  278,  271,
-      271,  278,  271,  271,  271,  271,  271,  278,  271,  271,
-      278,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      278,  271,  271,  271,  271,  271,  271,  271,  278,  271,
-
-      271,  271,  271,  271,  278,  271,  271,  271,  271,  271,
-      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
-      282,  271,  278,  271,  271,  282,  271,  278,  271,  271,
-      271,  278,  271,  271,  271,  271,  278,  271,  271,  271,
-      278,  271,  271,  271,  278,  271,  271,  283,  271,  278,
-      271,  283,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  284,  271,  284,  271,  271,  271,
-        0,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271
+      280,    1,  281,  281,  282,  282,  283,  283,  284,  284,
+      285,  285,  286,  286,  280,  280,  280,  280,  287,  288,
+      280,  280,  280,  289,  280,  280,  289,  289,  289,  289,
+      280,  280,  280,  280,  280,  280,  280,  280,  289,  280,
+      280,  280,  280,  280,  280,  280,  290,  280,  280,  290,
+      280,  280,  280,  280,  280,  280,  280,  280,  291,  292,
+      280,  280,  280,  280,  280,  287,  280,  287,  288,  288,
+      280,  280,  280,  280,  289,  289,  289,  289,  289,  289,
+      280,  280,  280,  280,  280,  289,  280,  280,  280,  280,
+      290,  280,  280,  280,  280,  280,  280,  291,  280,  291,
+
+      292,  292,  280,  280,  280,  280,  280,  280,  280,  287,
+      288,  280,  280,  280,  289,  289,  289,  289,  289,  280,
+      280,  280,  280,  289,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  291,  292,  280,  280,  280,  280,  280,
+      280,  289,  289,  289,  289,  289,  280,  280,  289,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  289,  289,  289,  289,  280,  280,  289,  280,
+      280,  280,  280,  280,  280,  289,  289,  289,  280,  280,
+      289,  280,  280,  280,  280,  280,  289,  280,  280,  289,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  289,
+
+      280,  280,  280,  280,  280,  280,  280,  289,  280,  280,
+      280,  280,  280,  289,  280,  280,  280,  280,  280,  280,
+      289,  280,  280,  280,  280,  289,  280,  280,  280,  293,
+      280,  289,  280,  280,  293,  280,  289,  280,  280,  280,
+      289,  280,  280,  280,  280,  289,  280,  280,  280,  289,
+      280,  280,  280,  289,  280,  280,  294,  280,  289,  280,
+      294,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  295,  280,  295,  280,  280,  280,    0,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280
+
     } ;
 
-static const flex_int16_t yy_nxt[550] =
+static const flex_int16_t yy_nxt[580] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
-       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
-       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
-       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
-       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
-       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
-       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
-       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
-      255,   59,   56,   43,   62,   57,   48,   51,   58,   62,
-       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
-
-       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
-      119,   67,   75,   75,   90,   75,  268,   76,   85,   86,
-       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
-      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
-       98,   76,  239,  102,  112,  112,  112,  117,  117,  117,
-      265,  121,   92,   85,   86,  122,   85,   87,   88,   93,
-       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
-       95,  126,   94,  192,  126,  127,  128,  143,  127,   99,
-      100,  162,   99,  129,  130,  262,  129,  104,  105,  131,
-      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
-
-      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
-      259,  152,  125,   91,  113,  125,   92,  138,  121,  145,
-      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
-      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
-      163,  163,  182,  182,  182,   95,  189,  190,  258,  189,
-      182,  182,  182,  121,  164,  209,  210,  122,  225,  210,
-      164,  238,  239,  183,  194,  194,  194,  194,  194,  194,
-      257,  183,  206,  206,  206,  206,  206,  206,  219,  219,
-      219,  219,  219,  219,  256,  195,  251,  239,  195,  234,
-      234,  234,  253,  207,  254,  255,  207,  254,  255,  220,
-
-      266,  255,  220,  234,  234,  234,  246,  246,  246,  250,
-      235,  246,  246,  246,  260,  260,  260,  263,  263,  263,
-      260,  260,  260,  249,  235,  248,  245,  247,  263,  263,
-      263,  244,  247,  243,  242,  261,  241,  240,  264,  210,
-      237,  261,  269,  269,  269,  269,  269,  269,  236,  264,
-      233,  232,  231,  230,  229,  228,  227,  224,  223,  222,
-      221,  218,  217,  270,  216,  215,  270,   39,   39,   39,
-       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
-       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
-       61,   84,  214,  213,   84,   91,   91,  162,   91,   94,
-
-       94,  212,   94,  226,  226,  211,  226,  252,  252,  166,
-      252,  267,  267,  208,  267,  205,  204,  203,  202,  201,
-      200,  199,  198,  197,  196,  193,  191,  188,  187,  186,
-      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
-      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
-       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
-      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
-      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
-      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
-       74,   73,   72,   71,   64,  271,   40,   15,  271,  271,
-
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271
+       16,   17,   18,   16,   17,   19,   16,   16,   20,   21,
+       21,   16,   22,   23,   24,   24,   25,   26,   24,   24,
+       24,   24,   24,   24,   24,   21,   16,   16,   24,   24,
+       24,   27,   24,   24,   24,   24,   24,   24,   24,   24,
+       28,   29,   30,   24,   24,   31,   16,   32,   16,   16,
+       33,   34,   35,   36,   34,   52,   37,   38,   42,   43,
+       44,   48,   49,   52,   48,   48,   49,   55,   48,   55,
+       58,   75,   39,   59,   67,   56,   60,   56,   67,   53,
+      128,   61,   58,   45,   64,   59,   50,   53,   60,   64,
+       50,  264,   65,   61,   62,   68,   70,   65,   72,  128,
+
+       40,   73,   46,   76,   82,   82,   62,   82,   96,   83,
+       77,   89,   82,   82,   74,   82,   99,   83,   90,   92,
+       93,   97,   92,   94,   95,   99,   94,  108,  103,  106,
+      107,  104,  106,   67,   67,  110,   66,  100,  110,  140,
+      109,  277,  141,  102,  105,  111,   69,  248,  111,  274,
+      113,  114,   70,  113,   68,   82,   82,  129,   82,   99,
+       83,  121,  121,  121,  126,  126,  126,   92,   93,   99,
+       92,  152,   94,   95,  130,   94,  132,  133,  131,  132,
+      100,  184,  122,  134,   98,  127,  134,  102,  135,  101,
+      271,  135,  136,  137,  153,  136,  106,  107,  130,  106,
+
+      138,  139,  131,  138,  110,   66,  268,  110,   67,  111,
+       69,  267,  111,  154,  113,  114,   67,  113,  121,  121,
+      121,   82,   82,  150,   82,  160,   83,  151,  161,   68,
+      126,  126,  126,  130,   70,  132,  133,  131,  132,  122,
+      134,   98,  147,  134,   99,  135,  101,  266,  135,  170,
+      201,  127,   99,  136,  137,   89,  136,  138,  139,  265,
+      138,  262,   90,  198,  199,  100,  198,  171,  171,  259,
+      102,  172,  172,  172,  172,  172,  172,  191,  191,  191,
+      191,  191,  191,  203,  203,  203,  203,  203,  203,  215,
+      215,  215,  173,  218,  219,  173,  234,  219,  192,  247,
+
+      248,  192,  260,  248,  204,  263,  264,  204,  263,  264,
+      216,  215,  215,  215,  228,  228,  228,  228,  228,  228,
+      243,  243,  243,  243,  243,  243,  255,  255,  255,  255,
+      255,  255,  216,  275,  264,  229,  258,  257,  229,  254,
+      253,  244,  252,  251,  244,  250,  249,  256,  219,  246,
+      256,  269,  269,  269,  272,  272,  272,  269,  269,  269,
+      272,  272,  272,  278,  278,  278,  278,  278,  278,  245,
+      242,  241,  270,  240,  239,  273,  238,  237,  270,  236,
+      233,  273,  232,  231,  279,  230,  227,  279,   41,   41,
+       41,   41,   47,   47,   47,   47,   51,   51,   51,   51,
+
+       54,   54,   54,   54,   57,   57,   57,   57,   63,   63,
+       63,   63,   66,   66,  226,   66,   69,   69,  225,   69,
+       91,  224,  223,   91,   98,   98,  222,   98,  101,  101,
+      171,  101,  235,  235,  221,  235,  261,  261,  220,  261,
+      276,  276,  175,  276,  217,  214,  213,  212,  211,  210,
+      209,  208,  207,  206,  205,  202,  200,  197,  196,  195,
+      194,  193,  190,  189,  188,  187,  186,  185,  183,  182,
+      181,  180,  179,  178,  177,  176,  175,  174,   90,   89,
+       85,   84,  169,  168,  167,  166,  165,  164,  163,  162,
+      159,  158,  157,  156,  155,  149,  148,  147,  146,  145,
+
+      144,  143,  142,  125,  124,  123,  120,  119,  118,  117,
+      116,  115,  112,   90,   89,   88,   87,   86,   85,   84,
+       81,   80,   79,   78,   71,  280,   42,   15,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280
     } ;
 
-static const flex_int16_t yy_chk[550] =
+static const flex_int16_t yy_chk[580] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -599,67 +606,70 @@ static const flex_int16_t yy_chk[550] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,   25,    2,   11,  278,    9,   11,   10,   25,    7,
-      270,   11,   12,    4,   13,   12,    5,    8,   12,   14,
-        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
-
-        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
-       82,   21,   33,   33,   54,   33,  266,   33,   48,   48,
-       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
-       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
-       59,   75,  261,   63,   77,   77,   77,   81,   81,   81,
-      259,   83,   94,   85,   85,   83,   85,   87,   87,   91,
-       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
-       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
-       99,  146,   99,  102,  102,  257,  102,  104,  104,  105,
-      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
-
-      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
-      255,  128,  125,  125,  112,  125,  125,  116,  195,  118,
-      126,  126,  195,  126,  117,  127,  127,  126,  127,  129,
-      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
-      163,  163,  173,  173,  173,  126,  180,  180,  254,  180,
-      182,  182,  182,  164,  147,  203,  203,  164,  220,  220,
-      163,  233,  233,  173,  185,  185,  185,  194,  194,  194,
-      253,  182,  200,  200,  200,  206,  206,  206,  214,  214,
-      214,  219,  219,  219,  251,  185,  247,  247,  194,  230,
-      230,  230,  249,  200,  250,  250,  206,  262,  262,  214,
-
-      264,  264,  219,  234,  234,  234,  242,  242,  242,  245,
-      230,  246,  246,  246,  256,  256,  256,  258,  258,  258,
-      260,  260,  260,  244,  234,  243,  241,  242,  263,  263,
-      263,  240,  246,  239,  238,  256,  237,  236,  258,  235,
-      232,  260,  268,  268,  268,  269,  269,  269,  231,  263,
-      229,  228,  227,  225,  224,  223,  222,  218,  217,  216,
-      215,  213,  212,  268,  211,  210,  269,  272,  272,  272,
-      272,  273,  273,  273,  273,  274,  274,  274,  274,  275,
-      275,  275,  275,  276,  276,  276,  276,  277,  277,  277,
-      277,  279,  209,  208,  279,  280,  280,  207,  280,  281,
-
-      281,  205,  281,  282,  282,  204,  282,  283,  283,  202,
-      283,  284,  284,  201,  284,  199,  198,  197,  196,  193,
-      192,  191,  188,  187,  186,  184,  181,  179,  177,  176,
-      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
-      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
-      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
-      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
-      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
-       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
-       31,   28,   27,   26,   20,   15,    3,  271,  271,  271,
-
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271,  271,
-      271,  271,  271,  271,  271,  271,  271,  271,  271
+       11,  289,    2,   11,   19,    9,   11,   10,   20,    7,
+       89,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,  279,   13,   12,   11,   19,   20,   14,   23,   89,
+
+        2,   23,    4,   27,   34,   34,   12,   34,   56,   34,
+       27,   46,   35,   35,   23,   35,   59,   35,   46,   50,
+       50,   56,   50,   53,   53,   60,   53,   65,   61,   62,
+       62,   61,   62,   66,   69,   68,   68,   59,   68,  114,
+       65,  275,  114,   60,   61,   70,   70,  270,   70,  268,
+       74,   74,   69,   74,   66,   82,   82,   90,   82,   98,
+       82,   84,   84,   84,   88,   88,   88,   92,   92,  101,
+       92,  127,   94,   94,   90,   94,   97,   97,   90,   97,
+       98,  173,   84,  100,  100,   88,  100,  101,  102,  102,
+      266,  102,  105,  105,  127,  105,  106,  106,  173,  106,
+
+      109,  109,  173,  109,  110,  110,  264,  110,  110,  111,
+      111,  263,  111,  127,  113,  113,  111,  113,  121,  121,
+      121,  125,  125,  125,  125,  137,  125,  125,  137,  110,
+      126,  126,  126,  204,  111,  132,  132,  204,  132,  121,
+      134,  134,  125,  134,  134,  135,  135,  262,  135,  155,
+      192,  126,  135,  136,  136,  154,  136,  138,  138,  260,
+      138,  258,  154,  189,  189,  134,  189,  155,  192,  254,
+      135,  156,  156,  156,  172,  172,  172,  182,  182,  182,
+      191,  191,  191,  194,  194,  194,  203,  203,  203,  209,
+      209,  209,  156,  212,  212,  172,  229,  229,  182,  242,
+
+      242,  191,  256,  256,  194,  259,  259,  203,  271,  271,
+      209,  215,  215,  215,  223,  223,  223,  228,  228,  228,
+      239,  239,  239,  243,  243,  243,  251,  251,  251,  255,
+      255,  255,  215,  273,  273,  223,  253,  252,  228,  250,
+      249,  239,  248,  247,  243,  246,  245,  251,  244,  241,
+      255,  265,  265,  265,  267,  267,  267,  269,  269,  269,
+      272,  272,  272,  277,  277,  277,  278,  278,  278,  240,
+      238,  237,  265,  236,  234,  267,  233,  232,  269,  231,
+      227,  272,  226,  225,  277,  224,  222,  278,  281,  281,
+      281,  281,  282,  282,  282,  282,  283,  283,  283,  283,
+
+      284,  284,  284,  284,  285,  285,  285,  285,  286,  286,
+      286,  286,  287,  287,  221,  287,  288,  288,  220,  288,
+      290,  219,  218,  290,  291,  291,  217,  291,  292,  292,
+      216,  292,  293,  293,  214,  293,  294,  294,  213,  294,
+      295,  295,  211,  295,  210,  208,  207,  206,  205,  202,
+      201,  200,  197,  196,  195,  193,  190,  188,  186,  185,
+      184,  183,  181,  180,  179,  178,  175,  174,  171,  170,
+      169,  168,  167,  165,  164,  163,  158,  157,  153,  152,
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  139,
+      133,  131,  130,  129,  128,  124,  123,  122,  119,  118,
+
+      117,  116,  115,   87,   86,   85,   81,   80,   79,   78,
+       77,   76,   71,   45,   44,   43,   40,   39,   38,   36,
+       33,   30,   29,   28,   22,   15,    3,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280,  280,
+      280,  280,  280,  280,  280,  280,  280,  280,  280
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
 0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 
     1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -967,13 +977,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 272 )
+				if ( yy_current_state >= 281 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 271 );
+		while ( yy_current_state != 280 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1219,11 +1229,16 @@ YY_RULE_SETUP
 { return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ set_illegal_char(); return LEX_ILLEGAL; }
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ILLEGAL; }
+	YY_BREAK
+case 52:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1530,7 +1545,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 272 )
+			if ( yy_current_state >= 281 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1558,11 +1573,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 272 )
+		if ( yy_current_state >= 281 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 271);
+	yy_is_jam = (yy_current_state == 280);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
@@ -2229,11 +2244,19 @@ void set_illegal_char()
 {
     const char *fmt = "illegal character [%c] at line %d";
     unsigned char c = (unsigned char)*yytext;
+    int line = yylineno;
+
+    /* literals may contain line splits */
+    for (const char *p = yytext; *p != 0; p++) {
+        if (*p == '\n') {
+            line--;
+        }
+    }
 
     if (!isgraph((int)*yytext)) {
         fmt = "illegal character [0x%02X] at line %d";
     }
 
-    SNPRINTF(errbuf, sizeof(errbuf), fmt, c, yylineno);
+    SNPRINTF(errbuf, sizeof(errbuf), fmt, c, line);
 }
 
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 77d89a9..a230bb2 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -76,6 +76,7 @@ namespace /* anonymous */
                 case LEX_ID:
                 case LEX_OTHER:
                 case LEX_EQUAL:
+                case LEX_ILLEGAL: /* operators, bit-fields, literals, etc. */
                     /* ignore */
                     break;
 
@@ -137,6 +138,9 @@ namespace /* anonymous */
                 case LEX_CURLY_CLOSE:
                 case LEX_EQUAL:
                     lex::set_illegal_char();
+                    [[fallthrough]];
+
+                case LEX_ILLEGAL:
                     rv = LEX_ERROR;
                     loop = false;
                     break;
-- 
2.43.0


From f48f4e4305d827be7ff33ec5fedfeead95d53b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 27/56] fix: don't append an empty line to the output of a
 custom template

---
 src/gendlopen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 332de91..b6df68d 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -207,6 +207,12 @@ void gendlopen::process_custom_template()
     /* parse lines */
     while (rv) {
         rv = utils::get_lines(fp, entry);
+
+        /* nothing left after the last linefeed */
+        if (!rv && entry.data.empty()) {
+            break;
+        }
+
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
-- 
2.43.0


From 6369f29ee4c6abd6af8a2933dff5db9aa90e16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 28/56] fix: recognize %PARAM_SKIP_*% lines with Windows line
 endings

---
 src/substitute.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 1cd7af2..1c752bc 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -59,15 +59,20 @@ namespace /* anonymous */
 
         ptr += len;
 
-        if (strcmp(ptr, "REMOVE_BEGIN%") == 0) {
+        /* ignore the carriage return of Windows line endings */
+        auto equal = [&ptr] (const std::string &keyword) -> bool {
+            return (ptr == keyword || ptr == keyword + '\r');
+        };
+
+        if (equal("REMOVE_BEGIN%")) {
             /* PARAM_SKIP_REMOVE_BEGIN */
             param_skip_code = (parameter_names == param::skip);
             return true;
-        } else if (strcmp(ptr, "USE_BEGIN%") == 0) {
+        } else if (equal("USE_BEGIN%")) {
             /* PARAM_SKIP_USE_BEGIN */
             param_skip_code = (parameter_names != param::skip);
             return true;
-        } else if (strcmp(ptr, "END%") == 0) {
+        } else if (equal("END%")) {
             /* PARAM_SKIP_END */
             param_skip_code = false;
             return true;
-- 
2.43.0


From 69d8494d8eee97d9add6fcc1f168bc1e0776bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 29/56] fix: don't search for placeholders in text that was
 already replaced

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..8bdc3c8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,7 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From 5b3a1991a748abfb9ac0fef84a4a57c96d12f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 30/56] fix: don't dump the #line directives that were added to
 the embedded templates

---
 src/data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 2791585..c94d26b 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -120,6 +120,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial #line directive, it isn't part of the template */
+        if (list->data.starts_with("#line 1 \"<built-in>/")) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From 3fa5fa2c1173d0cbeb397e31af3f8cc1f9c6f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 31/56] fix: keep a #line directive at the beginning of a
 template from -templates-path

---
 src/data.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index c94d26b..6bc33b5 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -52,15 +52,13 @@ namespace t = templates;
 namespace /* anonymous */
 {
     /* find template and load it into memory */
-    void load_from_file(std::vector<template_t> &data, const std::string &dir, const char *file, bool line_directive)
+    void load_from_file(std::vector<template_t> &data, const std::string &dir, const char *file)
     {
         std::string path;
         bool rv = true;
 
         /* don't add line directive to license part */
-        if (strcmp(file, "license.h") == 0) {
-            line_directive = false;
-        }
+        const bool line_directive = (strcmp(file, "license.h") != 0);
 
         /* lookup path */
         path = dir + file;
@@ -79,7 +77,8 @@ namespace /* anonymous */
         entry.maybe_keyword = false;
         entry.line_count = 1;
 
-        /* add initial #line directive */
+        /* add initial #line directive (like in the embedded
+         * templates, it's skipped if it wasn't requested) */
         if (line_directive) {
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
@@ -213,7 +212,7 @@ void gendlopen::load_template(templates::name file)
     {
 #define TEMPLATE(FILE, VAR) \
     case templates::file_##VAR: \
-        load_from_file(templates::data_##VAR, m_templates_path, #FILE, m_line_directive); \
+        load_from_file(templates::data_##VAR, m_templates_path, #FILE); \
         templates::ptr_##VAR = templates::data_##VAR.data(); \
         break;
 
-- 
2.43.0


From 3777a45cebab60335609010f6c0f0399f12a40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 32/56] =?UTF-8?q?fix:=20don't=20embed=20an=20empty=20line?=
 =?UTF-8?q?=20for=20a=20template=20that=20ends=20on=20a=20single=20=C2=BB@?=
 =?UTF-8?q?=C2=AB?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/gen_templates_data.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index 9457850..1a65594 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -77,6 +77,17 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
     while (READ_NEXT() != EOF)
     {
         if (new_line) {
+            if (c == '@') {
+                /* a single »@« at end of file doesn't begin a new line */
+                const int next = fgetc(fp);
+
+                if (next == EOF) {
+                    break;
+                }
+
+                ungetc(next, fp);
+            }
+
             fprintf(fpOut, "%s", "  { \"");
             new_line = false;
         }
-- 
2.43.0


From ff336fcada350d0bde7d441a8f1a0cff6d41e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 33/56] fix: Clang AST: return types with parentheses
 (_Atomic(int) etc.) were cut off

---
 src/clang_ast.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index dee7cae..3dfe09f 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -87,6 +87,28 @@ std::string strip_line(const char *line)
 }
 
 
+/* find the begin of the parameter list, skipping parentheses that belong
+ * to the return type, as in `_Atomic(int) *(void)' or `typeof (x) (void)' */
+bool find_parameter_list(const std::string &type, size_t &pos)
+{
+    const std::regex reg(R"((?:^|.*[^a-zA-Z0-9_])(?:_Atomic|_BitInt|typeof|typeof_unqual|__typeof|__typeof__) *)");
+    int scope = 0;
+
+    for (pos = 0; pos < type.size(); pos++) {
+        if (type[pos] == '(') {
+            if (scope == 0 && !std::regex_match(type.substr(0, pos), reg)) {
+                return true;
+            }
+            scope++;
+        } else if (type[pos] == ')') {
+            scope--;
+        }
+    }
+
+    return false;
+}
+
+
 /* check if the parameter list beginning at `pos' ends on `...' */
 bool is_variadic(const std::string &type, size_t pos)
 {
@@ -236,7 +258,7 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        if (!find_parameter_list(m.str(2), pos)) {
             return 0;
         }
 
-- 
2.43.0


From 5c085d8fa0f8c67c69401a4d37529950fa38a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 34/56] =?UTF-8?q?fix:=20don't=20report=20=C2=BBno=20error?=
 =?UTF-8?q?=C2=AB=20after=20a=20failed=20call=20if=20dlerror()=20has=20no?=
 =?UTF-8?q?=20message?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/templates/c.c     | 11 ++++++-----
 src/templates/cxx.cpp | 14 +++++++++-----
 src/templates/cxx.hpp |  2 +-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 99293f9..dc26a56 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -138,11 +138,12 @@ GDO_INLINE void _gdo_clear_error(void)
     gdo_hndl.errbuf[0] = 0;
 }
 
-/* save the last message provided by dlerror() */
+/* save the last message provided by dlerror();
+ * `msg' is used in case there is none */
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
-    GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+    const char *err = dlerror();
+    _gdo_save_to_errbuf((err && *err) ? err : msg);
 }
 
 /* sets the "no library was loaded" error message */
@@ -341,7 +342,7 @@ GDO_LINKAGE bool gdo_free_lib(void)
 #ifdef GDO_WINAPI
             _gdo_save_error(_T("FreeLibrary()"));
 #else
-            _gdo_save_error(NULL);
+            _gdo_save_error("dlclose() failed");
 #endif
             return false;
         }
@@ -800,7 +801,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     _gdo_clear_error();
 
     if (dlinfo(gdo_hndl.handle, RTLD_DI_LINKMAP, &lm) == -1) {
-        _gdo_save_error(NULL);
+        _gdo_save_error("dlinfo() failed to get library path");
         return false;
     }
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..8b22fbc 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -335,11 +335,11 @@ void gdo::dl::clear_error()
 }
 
 
-/* save last error */
-void gdo::dl::save_error(const std::string&)
+/* save last error; `msg' is used in case dlerror() doesn't provide a message */
+void gdo::dl::save_error(const std::string &msg)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+    m_errmsg = (ptr && *ptr) ? ptr : msg;
 }
 
 
@@ -447,7 +447,7 @@ bool gdo::dl::get_library_path_dlinfo(void)
     struct link_map *lm = nullptr;
 
     if (::dlinfo(m_handle, RTLD_DI_LINKMAP, &lm) == -1) {
-        save_error();
+        save_error("dlinfo() failed to get library path");
         return false;
     }
 
@@ -506,7 +506,11 @@ T gdo::dl::sym_load(const char *symbol)
     T ptr = reinterpret_cast<T>(_gdo_call_dlsym(m_handle, symbol));
 
     if (!ptr) {
+#ifdef GDO_WINAPI
         save_error();
+#else
+        save_error(symbol);
+#endif
     }
 
     return ptr;
@@ -823,7 +827,7 @@ bool gdo::dl::free(bool force)
 #ifdef GDO_WINAPI
         save_error("FreeLibrary()");
 #else
-        save_error();
+        save_error("dlclose() failed");
 #endif
         return false;
     }
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 5808444..6958e2c 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -181,7 +181,7 @@ private:
     std::string m_errmsg;
 
     void clear_error();
-    void save_error(const std::string &msg = {}); /* `msg' is always ignored */
+    void save_error(const std::string &msg);
     void set_error_invalid_handle();
 
     void load_lib(const std::string &filename);
-- 
2.43.0


From c6a93c19f6b9fe4fe7b32c8b096d75ccd988725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 35/56] fix: set an error message if the library path doesn't
 fit into the buffer

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index dc26a56..28cde45 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -820,6 +820,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -859,6 +860,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From 0c40f42a8d7419657d28d698f788430e5ee76035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 36/56] fix: auto-loading: report why loading the library has
 failed

---
 src/templates/c.c     | 26 ++++++++++++--------------
 src/templates/cxx.cpp | 26 ++++++++++++--------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 28cde45..151798d 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -920,24 +920,22 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     /* set auto-release, ignore errors */
     gdo_enable_autorelease();
 
-    /* load library */
-    if (!gdo_lib_is_loaded()) {
-        gdo_load_lib();
-    }
+    GDO_UNUSED_REF(load);
 
+    /* load library */
+    if (gdo_lib_is_loaded() || gdo_load_lib()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-    /* load a specific symbol */
-    if (gdo_load_symbol(load)) {
-        return;
-    }
+        /* load a specific symbol */
+        if (gdo_load_symbol(load)) {
+            return;
+        }
 # else
-    GDO_UNUSED_REF(load);
-
-    /* load all symbols */
-    if (gdo_load_all_symbols()) {
-        return;
-    }
+        /* load all symbols */
+        if (gdo_load_all_symbols()) {
+            return;
+        }
 # endif
+    }
 
     msg = gdo_last_error();
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 8b22fbc..d29db6b 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1021,24 +1021,22 @@ namespace gdo
 
 #ifdef GDO_ENABLE_AUTOLOAD
 
-            /* load library */
-            if (!_loader.lib_loaded()) {
-                _loader.load();
-            }
+            UNUSED_REF(load);
 
+            /* load library */
+            if (_loader.lib_loaded() || _loader.load()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-            /* load a specific symbol */
-            if (_loader.load_symbol(load)) {
-                return;
-            }
+                /* load a specific symbol */
+                if (_loader.load_symbol(load)) {
+                    return;
+                }
 # else
-            /* load all symbols */
-            if (_loader.load_all_symbols()) {
-                return;
-            }
-
-            UNUSED_REF(load);
+                /* load all symbols */
+                if (_loader.load_all_symbols()) {
+                    return;
+                }
 # endif
+            }
 
             std::string msg = _loader.error();
 
-- 
2.43.0


From 97e441de972767c6236dc1a430663982036cc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 37/56] fix: minimal templates: release a previously loaded
 library before loading another one

---
 src/templates/minimal.h         | 3 +++
 src/templates/minimal_cxxeh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..b6544c8 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -68,6 +68,9 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
         return "filename is empty";
     }
 
+    /* don't leak a previously loaded library */
+    gdo_free_library();
+
     /* load library */
 #ifdef GDO_WINAPI
     gdo_hndl.handle = LoadLibraryA(filename);
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..45597c7 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -107,6 +107,9 @@ namespace gdo
             throw LibraryError("<EMPTY>");
         }
 
+        /* don't leak a previously loaded library */
+        free_library();
+
         /* load library */
 #ifdef GDO_WINAPI
         handle = ::LoadLibraryA(filename);
-- 
2.43.0


From 49691897e4bec73bed74f196411f4dacd28afb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 38/56] fix: C++: library_path() returned the path of a library
 that was freed by another object

---
 src/templates/cxx.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index d29db6b..b58c5b1 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -256,10 +256,8 @@ void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
 
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    /* don't return the path of a library that was freed by another object */
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
@@ -957,10 +955,8 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
+    /* don't return the path of a library that was freed by another object */
+    m_libpath.clear();
 
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
-- 
2.43.0


From 3152b9a973ec0b5c88548fbcdb66d5489290d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 39/56] fix: C++: library_path() left the error of dlinfo()
 behind if dladdr() was successful

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index b58c5b1..22c4744 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -476,6 +476,8 @@ bool gdo::dl::get_library_path_dladdr(void)
     /* use dladdr() to get the library path from a symbol pointer */
     Dl_info info;
 
+    clear_error();
+
     if (no_symbols_loaded()) {
         m_errmsg = "no symbols were loaded";
         return false;
-- 
2.43.0


From 488be11de2f2bbcb267a7153cfc45cbdfb1cde9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 40/56] fix: /proc/self/maps: offset and device are hexadecimal
 numbers

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 39d93b66ace844b09bdf2f19ee8e4fe92a870a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 41/56] fix: minimal C template: GDO_STATIC did not compile
 with Clang (inline variable)

---
 src/templates/minimal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index b6544c8..5e4f238 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -29,7 +29,11 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+#ifdef GDO_STATIC
+static gdo_handle_t gdo_hndl;
+#else
+gdo_handle_t gdo_hndl;
+#endif
 
 
 /**
-- 
2.43.0


From 99bd045b6f7710a937ecda94fa020091351f5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 42/56] fix: Windows, C: the message of a failed filename
 conversion was overwritten

---
 src/templates/c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 151798d..41b23b1 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -229,7 +229,10 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
     _gdo_load_library(filename, flags, new_namespace);
 
     if (!gdo_lib_is_loaded()) {
-        _gdo_save_error(filename);
+        /* keep the message of a failed filename conversion */
+        if (gdo_hndl.errbuf[0] == 0) {
+            _gdo_save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 3fcd182d28c7f15d69b48916c165a031d8693319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 43/56] fix: Windows, C++: the message of a failed filename
 conversion was overwritten

---
 src/templates/cxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 22c4744..5bb0cf7 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -538,7 +538,10 @@ bool gdo::dl::load_filename(const T &filename)
     load_lib(filename);
 
     if (!lib_loaded()) {
-        save_error(filename);
+        /* keep the message of a failed filename conversion */
+        if (m_errmsg.empty()) {
+            save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From ee5202d1a74bb2c884f46e66891d1f4bbcf42185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 44/56] fix: Windows, C++: converted strings had their
 terminator as a character

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5bb0cf7..47ee24f 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -129,6 +129,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* the terminator is not part of the string */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From b4cd7a098f0368b2a2417fe20c82b6b10ed0eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 45/56] fix: C: a library name with a percent sign was used as
 a format string

---
 src/templates/c.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 41b23b1..4bf95a8 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -887,23 +887,23 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym, const gdo_char_t *msg)
 {
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s%s: %s"), prefix, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
+    _ftprintf_s(stderr, _T("%s%s: %s"), prefix, sym, msg);
     _fputtc(_T('\n'), stderr);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
+    fprintf(stderr, "%s%s: %s", prefix, sym, msg);
     fputc('\n', stderr);
 
 #endif //!_WIN32
@@ -944,9 +944,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: "), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": "), sym, msg);
     }
 
     gdo_force_free_lib();
@@ -963,7 +963,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error: "), sym, msg);
 
     abort();
 
-- 
2.43.0


From 7e9fc3a97552a1d4d22dcd85eb0782604341d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 46/56] fix: C++, Windows: auto-loading did not compile with a
 wide library name

---
 src/templates/cxx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 47ee24f..f451973 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1042,12 +1042,13 @@ namespace gdo
             }
 
             std::string msg = _loader.error();
+            std::string lib = _loader.filename();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            if (msg.find(lib) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << lib << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From 750c203a854b1eaa070292f38594573f19be5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:50 +0000
Subject: [PATCH 47/56] fix: names of objects were not usable as operands: the
 aliases lacked parentheses

---
 src/templates/c.c               | 2 +-
 src/templates/c.h               | 2 +-
 src/templates/cxx.cpp           | 2 +-
 src/templates/cxx.hpp           | 2 +-
 src/templates/minimal.h         | 2 +-
 src/templates/minimal_cxxeh.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 4bf95a8..2c4d575 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -984,7 +984,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..ff99f12 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -297,7 +297,7 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index f451973..e6d754a 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1086,7 +1086,7 @@ namespace gdo
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 6958e2c..7b70b97 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -508,7 +508,7 @@ namespace gdo {
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 5e4f238..c3a737a 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -116,7 +116,7 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo_hndl.GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo_hndl.GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo_hndl.GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index 45597c7..baaf8e5 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -152,7 +152,7 @@ namespace gdo
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo::GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo::GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo::GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
-- 
2.43.0


From 1bfaa2d171a1351ed371402c3bd8e6603276e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 48/56] fix: C, Windows: dlopen() with _UNICODE wrote wide
 strings into narrow buffers

---
 src/templates/c.c | 19 +++++++++++++------
 src/templates/c.h |  5 ++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2c4d575..4e32340 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -894,11 +894,18 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s%s: %s"), prefix, sym, msg);
-    MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
+    GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s%s: %s"), prefix, sym, msg);
+#  ifdef _GDO_TARGET_WIDECHAR
+    MessageBoxW(NULL, gdo_hndl.errbuf, L"Error", MB_OK | MB_ICONERROR);
+#  else
+    MessageBoxA(NULL, gdo_hndl.errbuf, "Error", MB_OK | MB_ICONERROR);
+#  endif
+# elif defined(_GDO_TARGET_WIDECHAR)
+    fwprintf_s(stderr, L"%s%s: %s", prefix, sym, msg);
+    fputwc(L'\n', stderr);
 # else
-    _ftprintf_s(stderr, _T("%s%s: %s"), prefix, sym, msg);
-    _fputtc(_T('\n'), stderr);
+    fprintf_s(stderr, "%s%s: %s", prefix, sym, msg);
+    fputc('\n', stderr);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
diff --git a/src/templates/c.h b/src/templates/c.h
index ff99f12..57b9d26 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -4,7 +4,10 @@
 
 #ifdef _WIN32
 # include <tchar.h>
-#else
+#endif
+
+/* narrow strings, even if `_UNICODE' is defined while using dlopen() */
+#ifndef _GDO_TARGET_WIDECHAR
 # undef _T
 # define _T(x) x
 #endif
-- 
2.43.0


From 3e6ef05f9bbbfa66d09d370a700fe5f9b2028a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 49/56] fix: C, Windows: message box text was formatted into
 the buffer of its own arguments

---
 src/templates/c.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 4e32340..d08a913 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -892,13 +892,13 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
-    /* we can safely use gdo_hndl.errbuf, the last error message
-     * was saved in gdo_hndl.formatted */
-    GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s%s: %s"), prefix, sym, msg);
+    /* msg may point to any buffer of gdo_hndl */
+    gdo_char_t buf[GDO_BUFLEN];
+    GDO_SNPRINTF(buf, _T("%s%s: %s"), prefix, sym, msg);
 #  ifdef _GDO_TARGET_WIDECHAR
-    MessageBoxW(NULL, gdo_hndl.errbuf, L"Error", MB_OK | MB_ICONERROR);
+    MessageBoxW(NULL, buf, L"Error", MB_OK | MB_ICONERROR);
 #  else
-    MessageBoxA(NULL, gdo_hndl.errbuf, "Error", MB_OK | MB_ICONERROR);
+    MessageBoxA(NULL, buf, "Error", MB_OK | MB_ICONERROR);
 #  endif
 # elif defined(_GDO_TARGET_WIDECHAR)
     fwprintf_s(stderr, L"%s%s: %s", prefix, sym, msg);
-- 
2.43.0


From e0b421b0bda18b0f5f928d194df6eccee7839177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 50/56] fix: first line of the license template was lost if it
 was a line directive

---
 src/generate.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index f1cec41..5a8e689 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -396,8 +396,9 @@ size_t gendlopen::save_data(templates::name file, const template_t * const &ptr)
     load_template(file);
     const template_t *list = ptr;
 
-    /* skip initial line directive */
-    if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
+    /* skip initial line directive; the license doesn't have one */
+    if (!m_line_directive && file != templates::file_license &&
+        strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
     }
 
-- 
2.43.0


From 298c4185a223435a06d424fd8d25843a9c4024f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 51/56] fix: report output that could not be written

Write errors (no space left on the device, file size limit, ...) went
unnoticed: gendlopen exited with status 0 and left truncated output behind.
Check the streams when the output is complete.
---
 src/cio_ofstream.cpp | 10 +++++++++-
 src/cio_ofstream.hpp |  3 ++-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  1 +
 src/generate.cpp     | 13 ++++++++++++-
 src/options.cpp      | 18 ++++++++++++++----
 7 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..6f9f68d 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,21 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+bool ofstream::close()
 {
+    bool good;
+
     if (m_ofs.is_open()) {
         m_ofs.close();
+        good = !m_ofs.fail();
+    } else {
+        std::cout.flush();
+        good = !std::cout.fail();
     }
 
     m_optr = &std::cout;
+
+    return good;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..373cc81 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,8 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    /* returns false if some of the data could not be written */
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index 6bc33b5..58e2ced 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -140,6 +140,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write to file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index b6df68d..da6781c 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -216,6 +216,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -255,5 +257,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!out.close()) {
+        throw error("failed to write output: <STDOUT>");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 5a7fd57..8f718bc 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,7 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 5a8e689..1f5d3ee 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -371,6 +371,15 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream and check that everything was written */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.close()) {
+        throw gendlopen::error("failed to write output: " +
+            (opath.empty() || opath == "-" ? "<STDOUT>" : opath.string()));
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -524,7 +533,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(ofhdr);
 
 
     /**************** body data ****************/
@@ -536,6 +545,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream(ofbody);
     }
 }
 
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..567f54a 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -67,6 +67,16 @@ namespace /* anonymous */
     {
         return ((ptr = get_option_len(token, opt, N-1)) != NULL);
     }
+
+    /* exit, but not before everything was written to stdout */
+    void exit_success()
+    {
+        if (!std::cout.flush()) {
+            throw gendlopen::error("failed to write output: <STDOUT>");
+        }
+
+        std::exit(0);
+    }
 }
 
 
@@ -93,17 +103,17 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
-            std::exit(0);
+            exit_success();
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
         } else if (o.arg(p, "D")) {
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
-            std::exit(0);
+            exit_success();
         } else if (o.arg(p, "format")) {
             format(p);
         } else if (o.flag("force")) {
@@ -140,7 +150,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
-            std::exit(0);
+            exit_success();
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
         }
-- 
2.43.0


From bc34cbf23a8368888aba2b0aa5d77b0cb75da05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 52/56] fix: notice read errors in custom templates and
 template files

A read error was taken for the end of the file, gendlopen went on and
exited with status 0 and truncated output.
---
 src/data.cpp      | 4 ++++
 src/gendlopen.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 58e2ced..7141f51 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -101,6 +101,10 @@ namespace /* anonymous */
             data.push_back(entry);
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read from file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index da6781c..59bc035 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -217,6 +217,10 @@ void gendlopen::process_custom_template()
         m_substitute_lineno += entry.line_count;
     }
 
+    if (::ferror(fp)) {
+        throw error("failed to read from file: " + m_custom_template);
+    }
+
     save::close_ofstream(m_output);
 }
 
-- 
2.43.0


From 5b44eaec12c50b5a30f4a1f68105700c5a1ea9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 53/56] fix: load the license and filename macros templates
 before any output is written

With -templates-path an unreadable license.h or filename_macros.h was only
noticed after the output file was created, or replaced because of -force.
---
 src/data.cpp     | 4 ++++
 src/generate.cpp | 2 --
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 7141f51..ebf1d95 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -155,6 +155,10 @@ namespace /* anonymous */
 /* create template data */
 void gendlopen::create_template_lists(vtemplate_t &header, vtemplate_t &body)
 {
+    /* load everything before any output is written */
+    load_template(t::file_license);
+    load_template(t::file_filename_macros);
+
     auto concat_sources = [&] (const template_t *t_header, const template_t *t_body)
     {
         load_template(t::file_common_header);
diff --git a/src/generate.cpp b/src/generate.cpp
index 1f5d3ee..47d0ea0 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -401,8 +401,6 @@ size_t gendlopen::save_data(templates::name file, const template_t * const &ptr)
 {
     size_t total_lines = 0;
 
-    /* loading may set a new pointer */
-    load_template(file);
     const template_t *list = ptr;
 
     /* skip initial line directive; the license doesn't have one */
-- 
2.43.0


From ee93d011c97b34506e5db6df5e6f4d13dbcad36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 54/56] fix: gen_templates_data: check for read and write
 errors

They led to truncated embedded templates and a successful build step.
---
 src/gen_templates_data.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index 1a65594..f72ce8b 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -175,6 +175,11 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
     fprintf(fpOut, "%s", "};\n");
     fprintf(fpOut, "const template_t *ptr_%s = %s;\n\n", varName, varName);
 
+    if (ferror(fp)) {
+        fprintf(stderr, "failed to read from file: %s/%s\n", in_dir, in_file);
+        exit(1);
+    }
+
     fclose(fp);
 }
 
@@ -208,7 +213,13 @@ int main(int argc, char **argv)
 
     fprintf(fp, "%s\n", "} /* end namespace templates */");
 
-    fclose(fp);
+    /* check that everything was written */
+    const bool write_error = (ferror(fp) != 0);
+
+    if (fclose(fp) != 0 || write_error) {
+        fprintf(stderr, "failed to write to file: %s\n", argv[2]);
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 7eb10a064b713e897c7bfa6c94fdbfa43deccc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 55/56] fix: C, Windows: crash if the copy of a filename could
 not be allocated

---
 src/templates/c.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index d08a913..6df7f4b 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -256,6 +256,12 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     /* copy filename and replace path separators */
     gdo_char_t *copy = _tcsdup(filename);
 
+    if (!copy) {
+        GDO_SET_LAST_ERRNO(ERROR_NOT_ENOUGH_MEMORY);
+        _gdo_save_to_errbuf(_T("out of memory"));
+        return;
+    }
+
     for (gdo_char_t *p = copy; *p != 0; p++) {
         if (*p == _T('/')) {
             *p = _T('\\');
@@ -286,7 +292,7 @@ GDO_INLINE wchar_t *_gdo_mbstowcs(const char *filename)
         wcs = (wchar_t *)malloc(len * sizeof(wchar_t));
 
         /* convert string */
-        if (mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
+        if (wcs && mbstowcs_s(&n, wcs, len, filename, _TRUNCATE) == 0 && n == len) {
             return wcs;
         }
 
-- 
2.43.0


From ad82bb0d47db493941db9f9f9572b974cbf4a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 56/56] fix: plugin loader: crash if the list could not be
 allocated

---
 src/templates/plugin.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..ae15fa9 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -33,9 +33,19 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
 
     /* allocate struct */
     gdo_plugin_t *plug = (gdo_plugin_t *)malloc(sizeof(gdo_plugin_t));
+
+    if (!plug) {
+        return NULL;
+    }
+
     plug->num = num;
     plug->list = (gdo_handle_t *)calloc(num, sizeof(gdo_handle_t));
 
+    if (!plug->list) {
+        free(plug);
+        return NULL;
+    }
+
     for (size_t i = 0; i < num; i++) {
         if (!files[i] || *files[i] == 0) {
             /* empty filename */
-- 
2.43.0

