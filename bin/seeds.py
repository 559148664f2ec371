# Planted bugs; bin/seed make writes seeded/ from this list.
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, files={}): SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files))
seed('paren-pointer2', 'C15', [('src/parse.cpp', 'parse::append_strings(p.type, it + 1, it + 1 + n);', 'parse::append_strings(p.type, it + 1, it + 2);')],
     'a declaration of the form TYPE (**SYMBOL(ARGS))', 'the second pointer of the return type is lost',
     "echo 'int (**foo(int a));' | $g - -print-symbols | grep -q '^int \\*\\*foo(int a);'")
seed('create-fptr-type', 'C17', [('src/parameter_names.cpp', 'parse::append_strings(proto.args, v.begin(), it + 2);', 'parse::append_strings(proto.args, v.begin(), v.begin() + 3);')],
     '-param=create and a function pointer parameter whose return type has more than one token', 'tokens of the parameter type are lost',
     "echo 'int f(int x, unsigned char (*)(int));' | $g - -param=create -print-symbols >o; grep -qx 'int f(int x a1, unsigned char (\\*a2)(int));' o || grep -qx 'int f(int x a1, unsigned char(\\*a2)(int));' o")
seed('listed-twice', 'C18', [('src/parse.cpp', '''                if (std::erase(m_symbol_list, e.symbol) > 0) {
                    save_symbol(e);''', '''                auto it = std::find(m_symbol_list.begin(), m_symbol_list.end(), e.symbol);

                if (it != m_symbol_list.end()) {
                    m_symbol_list.erase(it);
                    save_symbol(e);'''), ('src/parse.cpp', '#include <string>\n', '#include <algorithm>\n#include <string>\n')],
     'the same symbol named by two -S options', 'the symbol is reported as not found although it is declared',
     "printf 'int foo(int a);\\nint bar(int b);\\n' | $g - -S foo -S foo -print-symbols >o 2>&1 && grep -q 'int foo(int a);' o")
seed('objtype-nospace', 'C20', [('src/substitute.cpp', '''            utils::replace("%%obj_type%% ", e.type, copy);
        }
        utils::replace("%%obj_type%%", e.type, copy);''', '''            utils::replace("%%obj_type%% ", e.type, copy);
        } else {
            utils::replace("%%obj_type%%", e.type, copy);
        }''')],
     'an object of pointer type and %%obj_type%% not followed by a space', 'the placeholder is left in the output',
     "printf '(%%%%obj_type%%%%)%%%%obj_symbol%%%%;\\n' >t; echo 'char *obj;' | $g - -template=t >o; grep -qx '(char \\*)obj;' o")
seed('double-underscore', 'C21', [('src/gendlopen.cpp', '''        "((" NOT_IDENT "|" LINE_BEGIN ")[_]?)(gdo_)"''', '''        "((" NOT_IDENT "|" LINE_BEGIN ")[_]*)(gdo_)"''')],
     'an identifier beginning with two underscores followed by gdo_', 'an identifier that is not derived from the prefix is renamed',
     "printf '__gdo_x _gdo_x gdo_x\\n' >t; echo 'char *obj;' | $g - -template=t -prefix=my >o; grep -qx '__gdo_x _my_x my_x' o")
seed('prefix-whole', 'C25', [('src/generate.cpp', 'for (i = 0; i < (*it0).symbol.size(); i++) {', 'for (i = 0; i + 1 < (*it0).symbol.size(); i++) {')],
     'the first symbol is itself the common prefix of the others', 'the last character of the common prefix is missing',
     "printf 'int foo(int a);\\nint foobar(int b);\\n' | $g - | grep -qx '#define GDO_COMMON_PREFIX \"foo\"'")
seed('api-colon', 'C26', [('src/generate.cpp', 'std::regex reg("(.*?):(.*)")', 'std::regex reg("(.*):(.*)")')],
     'an api: library name containing a further colon', 'name and number are split at the wrong colon',
     "printf 'int foo(int a);\\n' | $g - -library=api:2:a:b | grep -qx '#define GDO_HARDCODED_DEFAULT_LIBA GDO_LIBNAMEA(a:b,2)'")
seed('dangling-link', 'C23', [('src/generate.cpp', 'if (fs::exists(fs::symlink_status(opath))) {', 'if (fs::exists(opath)) {')],
     'the output path is a dangling symlink', 'the file the link points to is created',
     "ln -s target out.h; printf 'int foo(int a);\\n' | $g - -out=out.h; [ $? = 1 ] && [ ! -e target ]")
seed('body-date', 'C27', [('src/generate.cpp', '        save::note(m_print_date);\n        save_data', '        save::note(true);\n        save_data')],
     '-separate together with -no-date', 'the body still carries a date',
     "printf 'int foo(int a);\\n' | $g - -no-date -separate -out=o.c; ! grep -q 'generated by gendlopen on' o.c o.h")
seed('bounds-end', 'C16', [('src/check_pattern.cpp', '''            (std::distance(v.begin(), it) < sq.dist_front ||
             std::distance(it, v.end()) < sq.dist_end))''', '''            std::distance(v.begin(), it) < sq.dist_front)''')],
     'a declaration with many type tokens that ends early in a function pointer pattern', 'tokens after the end of the vector are read',
     """clang -w -c -I$r/src $r/src/lex.yy.c -o lex.o; clang++ -std=c++20 -O0 -g -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1 -I$r/src -w $r/src/*.cpp $r/_build/src/templates_data.cpp lex.o -o ga >b 2>&1 || { tail -3 b; exit 3; }
for i in 'int x y (*b);' 'int x y z (*b);' 'int x y z w (**b);' 'a b c d e f(*b);' 'a b c d e * * (*b);' 'a b c d e f g(*h());'; do echo "$i" >i; ASAN_OPTIONS=detect_leaks=0 ./ga i -print-symbols >o 2>&1; [ $? -le 1 ] && ! grep -q AddressSanitizer o || { grep -m1 ERROR o; exit 1; }; done""")

# ---- loader runtime
STUB = r'''/* a dynamic linker that answers as told */
#include <dlfcn.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#include <iostream>
#include <sstream>
#include <string>
#include <stdexcept>
#endif
static int opens, news, closes, open_ok = 1, close_ok = 1, atexit_ok = 1;
static const char *missing = "", *failfile = "";
static char cell[256];
static void *s_dlopen(const char *f, int fl) { opens++; return open_ok && strcmp(f, failfile) ? cell + opens : 0; }
static void *s_dlmopen(Lmid_t ns, const char *f, int fl) { news++; return s_dlopen(f, fl); }
static const char *dlerror_text = "linker error"; static void *symlib;
static int s_fn(int a) { return a; }
static void *s_dlsym(void *h, const char *n) { symlib = h; return strcmp(n, missing) ? (void *)s_fn : 0; }
static int s_dlclose(void *h) { closes++; return close_ok ? 0 : -1; }
static char *s_dlerror(void) { return (char *)dlerror_text; }
static int s_atexit(void (*f)(void)) { return atexit_ok ? atexit(f) : -1; }
#define dlopen s_dlopen
#define dlmopen s_dlmopen
#define dlsym s_dlsym
#define dlclose s_dlclose
#define dlerror s_dlerror
#define atexit s_atexit
#include "h.h"
'''
def rt(id, property, edits, needs, breaks, fmt, inp, main, cxx=False, opts='', cflags='', pre=''):
    seed(id, property, edits, needs, breaks,
         f"""printf '%s\\n' '{inp}' | $g - -format={fmt} -library=libx.so -out=h.h {opts} && {'g++ -std=c++17' if cxx else 'gcc'} -w -D_GNU_SOURCE {cflags} -I. -I"$h" "$h/demo.{'cc' if cxx else 'c'}" -o demo && ./demo""",
         {'stub.h': STUB, 'demo.cc' if cxx else 'demo.c': pre + '#include "stub.h"\n' + main})
T = 'src/templates/'
rt('autorelease-failed', 'C01', [(T + 'c.c', '''        if (atexit(gdo_force_free_lib) == 0) {
            gdo_hndl.free_lib_reg = true;
        } else {''', '''        gdo_hndl.free_lib_reg = true;
        if (atexit(gdo_force_free_lib) != 0) {''')],
   'atexit() fails', 'auto-release is reported as registered although it is not', 'c', 'int foo(int a); int foobar(int b);',
   'int main(void) { atexit_ok = 0; if (gdo_enable_autorelease()) return 1; atexit_ok = 1; return !gdo_enable_autorelease(); }\n')
rt('forced-free-fails', 'C01', [(T + 'c.c', '''    if (gdo_lib_is_loaded()) {
        _gdo_call_dlclose(gdo_hndl.handle);
    }
''', '''    if (gdo_lib_is_loaded() && !_gdo_call_dlclose(gdo_hndl.handle)) {
        return;
    }
''')], 'the linker fails to close the library on a forced release', 'the handle and pointers are kept', 'c', 'int foo(int a); int foobar(int b);',
   'int main(void) { if (!gdo_load_lib_and_symbols()) return 2; close_ok = 0; gdo_force_free_lib(); return gdo_lib_is_loaded() || gdo_any_symbol_loaded(); }\n')
rt('name-beginning', 'C02', [(T + 'c.c', 'if (len == curr_len && strcmp(symbol + pfxlen, curr + pfxlen) == 0) {@', 'if (len >= curr_len && strncmp(symbol + pfxlen, curr + pfxlen, curr_len - pfxlen) == 0) {@')],
   'a symbol whose name is the beginning of another one', 'loading the longer name loads the shorter one', 'c', 'int foo(int a); int foobar(int b);',
   'int main(void) { if (!gdo_load_lib() || !gdo_load_symbol_name("foobar")) return 2; return gdo_hndl.GDO_X; }\n'.replace('gdo_hndl.GDO_X', '!GDO_RAWPTR_foobar || GDO_RAWPTR_foo'))
rt('stale-after-free', 'C03', [(T + 'c.c', '''    _gdo_clear_error();

    if (gdo_lib_is_loaded()) {
        if (!_gdo_call_dlclose(gdo_hndl.handle))''', '''    if (gdo_lib_is_loaded()) {
        _gdo_clear_error();

        if (!_gdo_call_dlclose(gdo_hndl.handle))''')],
   'a failed call, then gdo_free_lib() while nothing is loaded', 'the error of the earlier call is still reported after a successful one', 'c', 'int foo(int a); int foobar(int b);',
   'int main(void) { open_ok = 0; if (gdo_load_lib()) return 2; if (!gdo_free_lib()) return 2; return strcmp(gdo_last_error(), "no error") != 0; }\n')
rt('maps-end', 'C04', [(T + 'common.c', 'lm->l_addr < end', 'lm->l_addr <= end')],
   'a relative library path and a mapping that ends where the library begins', 'the path of another file is returned', 'c', 'int foo(int a); int foobar(int b);',
   '''int main(void) { if (!gdo_load_lib()) return 2; const char *p = gdo_library_path(); return !p || strcmp(p, "/right") != 0; }\n''',
   pre=r'''#include <dlfcn.h>
#include <link.h>
#include <stdio.h>
#include <fcntl.h>
#include <string.h>
#include <sys/ioctl.h>
static struct link_map lm;
static int s_dlinfo(void *h, int r, void *o) { lm.l_name = (char *)"rel/libx.so"; lm.l_addr = 0x2000; *(struct link_map **)o = &lm; return 0; }
static FILE *s_fopen(const char *f, const char *m) { static char t[] = "1000-2000 r--p 00000000 00:01 1   /wrong\n2000-3000 r--p 00000000 00:01 2   /right\n"; return fmemopen(t, strlen(t), "r"); }
#define dlinfo s_dlinfo
#define fopen s_fopen
#define open(...) (-1)
''')
rt('autoload-norelease', 'C05', [(T + 'c.c', '''    gdo_force_free_lib();
    exit(1);''', '''    exit(1);''')],
   'auto-loading fails at a symbol after atexit() has failed', 'the library is not released', 'c', 'int foo(int a); int foobar(int b);',
   '''#include <unistd.h>\nstatic void done(void) { _exit(closes == 1 ? 0 : 1); }\nint main(void) { (atexit)(0); return 2; }\n'''.replace('(atexit)(0); return 2;', 'on_exit((void (*)(int, void *))done, 0); atexit_ok = 0; missing = "foobar"; foo(1); return 2;'), cflags='-DGDO_ENABLE_AUTOLOAD')
rt('sticky-namespace', 'C06', [(T + 'cxx.cpp', 'm_new_namespace = new_namespace;', 'm_new_namespace |= new_namespace;')],
   'a load into a new namespace followed by a plain load with the same object', 'the second library is loaded into a new namespace', 'c++', 'int foo(int a); int foobar(int b);',
   'int main() { gdo::dl l; l.load("a", RTLD_LAZY, true); l.free(); if (news != 1) return 2; l.load("b", RTLD_LAZY, false); return news != 1; }\n', True)
rt('dtor-unforced', 'C06', [(T + 'cxx.cpp', '''        free(true);
    }
}''', '''        free();
    }
}''')], 'the linker fails to close the library in the destructor', 'the handle is kept by the class and the next object cannot load', 'c++', 'int foo(int a); int foobar(int b);',
   'int main() { { gdo::dl l("a"); if (!l.load()) return 2; close_ok = 0; } return gdo::dl::lib_loaded(); }\n', True)
rt('cxx-any-all', 'C07', [(T + 'cxx.cpp', '''    if (all_symbols_loaded()) {
        return true;
    } else if (!lib_loaded()) {''', '''    if (any_symbol_loaded() && GDO_COMMON_PREFIX[0] == 0) {
        return true;
    } else if (!lib_loaded()) {''')],
   'a single symbol is loaded before all symbols, names without a common beginning', 'true is returned although symbols are missing', 'c++', 'int foo(int a); int bar(int b);',
   'int main() { gdo::dl l("a"); l.load(); if (!l.load_symbol("foo")) return 2; return !l.load_all_symbols() || !l.all_symbols_loaded(); }\n', True)
rt('callback-null', 'C08', [(T + 'cxx.cpp', '''    m_message_callback = cb;
''', '''    if (cb) {
        m_message_callback = cb;
    }
''')], 'the message callback is set and later reset with NULL', 'the old callback is still used', 'c++', 'int foo(int a); int foobar(int b);',
   '#include <unistd.h>\nstatic void cb(const char *) { _exit(1); }\nint main() { gdo::dl::message_callback(cb); gdo::dl::message_callback(nullptr); open_ok = 0; std::atexit([] { _exit(0); }); foo(1); return 2; }\n', True, cflags='-DGDO_ENABLE_AUTOLOAD', pre='#include <cstdlib>\nnamespace std { static int s_atexit(void (*f)(void)) { return atexit(f); } }\n')
rt('min-leak', 'C09', [(T + 'minimal.h', '''    if (!gdo_hndl.GDO_PTR_%%symbol%%) {@
        gdo_free_library();@''', '''    if (!gdo_hndl.GDO_PTR_%%symbol%%) {@
        gdo_hndl.handle = NULL;@''')],
   'a missing symbol', 'the library is not closed and pointers are left', 'minimal', 'int foo(int a); int foobar(int b);',
   'int main(void) { missing = "foobar"; if (!gdo_load_library_and_symbols("a")) return 2; return closes != 1; }\n')
rt('min-exception-base', 'C10', [(T + 'minimal_cxxeh.hpp', '''    class SymbolError : public std::runtime_error
    {
        public:
            SymbolError(const std::string &message) : std::runtime_error(message) {}''', '''    class SymbolError : public LibraryError
    {
        public:
            SymbolError(const std::string &message) : LibraryError(message) {}''')],
   'a missing symbol and a caller that catches LibraryError first', 'a missing symbol is taken for a missing library', 'minimal-c++', 'int foo(int a); int foobar(int b);',
   'int main() { missing = "foobar"; try { gdo::load_library_and_symbols("a"); } catch (const gdo::LibraryError &) { return 1; } catch (const gdo::SymbolError &) { return 0; } return 2; }\n', True)
rt('plugin-break', 'C11', [(T + 'plugin.c', '''        if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {
            continue;''', '''        if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {
            break;''')],
   'a file that cannot be loaded before others', 'the files after it are not loaded', 'plugin', 'int foo(int a); int foobar(int b);',
   'int main(void) { const char *f[] = {"a", "bad", "c"}; failfile = "bad"; gdo_plugin_t *p = gdo_load_plugins(f, 3); if (!p) return 2; int r = !p->list[2].handle; gdo_release_plugins(p); return r || closes != 2; }\n')

# ---- generator, second batch
seed('param-read', 'C12', [('src/gendlopen.cpp', '''    } else if (utils::strcasecmp(str, "read") == 0) {
        parameter_names(param::read);''', '''    } else if (utils::strcasecmp(str, "read") == 0) {
        /* this is the default */''')],
     '-param=read after -param=skip or -param=create', 'the later occurrence does not override the earlier one',
     "echo 'int f(int);' | $g - -param=skip -print-symbols >o || exit 2; echo 'int f(int);' | $g - -param=skip -param=read -print-symbols >o 2>&1; [ $? = 1 ]")
seed('option-in-block', 'C13', [('src/tokenize.cpp', '''                case LEX_OTHER:
                case LEX_EQUAL:
''', '''                case LEX_OTHER:
                case LEX_EQUAL:
                case LEX_OPTION:
'''), ('src/tokenize.cpp', '''                        tokens.clear();
                    }
                    break;

                /* "%option" line */
                case LEX_OPTION:
                    if (options) {
                        options->push_back(lex::text());
                    }
                    break;

                default:
                    /* EOF, error, etc. */
                    loop = false;
                    break;
                }
            }
            else''', '''                        tokens.clear();
                    }
                    break;

                default:
                    /* EOF, error, etc. */
                    loop = false;
                    break;
                }
            }
            else''')],
     'a %option line between the lines of a struct, union, enum or typedef', 'the option is ignored',
     "printf 'struct a {\\n  int x;\\n%%option prefix=my\\n};\\nint f(int a);\\n' | $g - >o && grep -q 'MY_COMMON_PREFIX' o")
seed('empty-option-value', 'C13', [('src/options.cpp', 'if (token.size() > optlen) {', 'if (token.size() >= optlen) {')],
     'a %option string that ends after the equal sign', 'an option without a value is accepted',
     "printf '%%option library=\\nint f(int a);\\n' | $g - >o 2>&1; [ $? = 1 ]")
seed('pre-line-comment', 'C14', [('src/lex.l', '<PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }', '<PRE>"//"                   { /* simple comment, runs to the end of the line as well */ }'),
     ("src/lex.yy.c", """case 26:
YY_RULE_SETUP
{ BEGIN(COMMENT); /* simple comment */ }""", """case 26:
YY_RULE_SETUP
{ /* simple comment, runs to the end of the line as well */ }""")],
     'a line comment on a preprocessor line that holds the start of a block comment', 'the declarations after it are swallowed',
     "printf '#define X 1 // old /* style\\nint f(int a);\\n/* x */ int g(int b);\\n' | $g - -print-symbols >o && grep -q 'int f(int a);' o && grep -q 'int g(int b);' o")
seed('ast-list-done', 'C19', [('src/clang_ast.cpp', 'if (mode == filter::list && m_symbol_list.empty()) {', 'if ((mode & filter::list) && m_symbol_list.empty()) {')],
     '-P and -S together, a prefixed declaration after the last one that is listed', 'prefixed symbols are left out',
     r'''printf "TranslationUnitDecl 0x5 <<invalid sloc>> <invalid sloc>\n|-FunctionDecl 0x6 <a.h:1:1, col:9> col:5 foo 'int (void)'\n|-VarDecl 0x8 <line:3:1, col:9> col:5 v 'int' extern\n|-FunctionDecl 0x7 <line:2:1, col:9> col:5 bar_x 'int (void)'\n" | $g - -S foo -P bar_ -print-symbols >o && grep -q bar_x o && grep -q foo o''')
seed('skip-line-number', 'C22', [('src/substitute.cpp', '''            save::ofs << "#line " << (m_substitute_lineno + 1) << '\\n';''', '''            save::ofs << "#line " << m_substitute_lineno << '\\n';''')],
     '-line and a %PARAM_SKIP_* section', 'the lines after the section are mapped to the line before',
     r'''printf 'a\n%%PARAM_SKIP_REMOVE_BEGIN%%\nb\n%%PARAM_SKIP_END%%\nc %%%%symbol%%%%\n' >t; echo 'int f(int a);' | $g - -line -template=t >o || exit 2; printf '#line 1 "%s"\n%s\n' t 'a
b
#error here' >/dev/null; cat >c.py <<'P'
import sys
n = None; m = {}
for l in open(sys.argv[1]):
    if l.startswith('#line '): n = int(l.split()[1]); continue
    m[l.split()[0] if l.split() else ''] = n; n += 1
sys.exit(m != {'a': 1, 'b': 3, 'c': 5})
P
python3 c.py o''')
seed('joined-lines-count', 'C22', [('src/substitute.cpp', '    return utils::count_linefeed(buf) + 1;', '    return 1;')],
     '-line and a template entry of several lines without placeholders', 'the end of the header is mapped to the wrong line',
     "mkdir t; $g -dump-templates=t >o || exit 2; { printf '// a@\\n// b@\\n// c\\n'; cat t/c.h; } >h; mv h t/c.h; printf 'int f(int a);\\n' >i; $g i -line -out=x.h -templates-path=t || exit 2; awk '{n++} /^#line [0-9]+ \"x.h\"/ {split($0,a,\" \"); if (a[2] != n+1) bad=1; k++} END {exit bad || k<2}' x.h")
seed('min-cxx-path', 'C24', [('src/data.cpp', '''        load_template(t::file_min_cxx_header);
        header.push_back''', '''        load_template(t::file_min_c_header);
        header.push_back''')],
     '-templates-path and -format=minimal-c++', 'the template from the path is not used',
     "mkdir t; $g -dump-templates=t >o || exit 2; echo '/* edited */' >>t/minimal_cxxeh.hpp; echo 'int f(int a);' | $g - -format=minimal-c++ -templates-path=t >o && grep -q '/[*] edited [*]/' o")
seed('embed-count', 'C24', [('src/gen_templates_data.c', '''                fprintf(fpOut, "%s", "    \\"");
                count++;''', '''                fprintf(fpOut, "%s", "    \\"");
                count += !multi_line;''')],
     'an embedded template entry of several lines', 'it counts as one line and is dumped without the continuation characters',
     "mkdir t; $g -dump-templates=t >o || exit 2; for i in c.c c.h common.c common.h cxx.cpp cxx.hpp minimal.h plugin.c; do cmp t/$i $r/src/templates/$i || exit 1; done")
seed('define-last-equal', 'C26', [('src/gendlopen.cpp', "    if (utils::find(def, '=', pos)) {", "    if ((pos = def.rfind('=')) != std::string::npos) {")],
     '-D with an equal sign in the value', 'name and value are split at the wrong place',
     "echo 'int f(int a);' | $g - '-DA=(1==1)' >o && grep -qx '# define A (1==1)' o")
seed('lone-quote', 'C26', [('src/generate.cpp', '''    if (lib.size() >= 2 && utils::front_and_back(lib, '"', '"')) {
        /* already quoted */
        return lib;
    }

    return '"' + lib + '"';''', '''    if (utils::front_and_back(lib, '"', '"')) {
        /* already quoted */
        return lib;
    }

    return '"' + lib + '"';''')],
     'a library name consisting of a single quotation mark', 'it is taken for a quoted name',
     "echo 'int f(int a);' | $g - '-library=\"' >o && grep -Fqx '#define GDO_HARDCODED_DEFAULT_LIBA \"\"\"' o")
seed('va-args-callback', 'C27', [('src/generate.cpp', 'if (e.args.ends_with("...")) {', 'if (utils::find(e.args, "...")) {')],
     'a function with a callback parameter that takes variable arguments', 'the function counts as one with variable arguments and gets no wrapper',
     "echo 'int f(int (*cb)(int, ...), int n);' | $g - >o && ! grep -q '^#define GDO_HAS_VA_ARGS_f ' o")
seed('create-pointer-first', 'C17', [('src/parameter_names.cpp', '''        /* check if a parameter begins with pointer */
        if (v.front().starts_with('*')) {
            msg = "parameter in function `" + proto.symbol + "' begins with pointer `*': ";
            append_strings(msg, v);
            return false;
        }

''', '')],
     '-param=create and a parameter beginning with *', 'a parameter without a type is accepted',
     "echo 'int f(int x, * y);' | $g - -param=create -print-symbols >o 2>&1; [ $? = 1 ]")
seed('adjacent-duplicates', 'C18', [('src/parse.cpp', '''            for (auto j = vproto.begin(); i != j; ++j) {
                if ((*i).symbol == (*j).symbol) {
                    buf = (*i).symbol;
                    return true;
                }
            }''', '''            auto j = i + 1;

            if (j != vproto.end() && (*i).symbol == (*j).symbol) {
                buf = (*i).symbol;
                return true;
            }''')],
     'a symbol declared twice with another declaration in between', 'the duplicate is not reported',
     "printf 'int a(int x);\\nint b(int x);\\nint a(int x);\\n' | $g - >o 2>&1; [ $? = 1 ]")
seed('void-prefix', 'C20', [('src/substitute.cpp', 'if (utils::strcasecmp(e.type.c_str(), "void") == 0) {', 'if (utils::strncasecmp(e.type.c_str(), "void", 4) == 0) {')],
     'a function whose return type begins with void but is not void', '%%return%% is removed and the result is lost',
     "printf '%%%%return%%%% %%%%func_symbol%%%%();\\n' >t; echo 'void_t f(int a);' | $g - -template=t >o && grep -qx 'return f();' o")
seed('early-open', 'C23', [('src/gendlopen.cpp', '''    /* open file for reading */
    open_file file(m_custom_template);
''', '''    /* create output file */
    save::open_ofstream(m_output, m_force);

    /* open file for reading */
    open_file file(m_custom_template);
'''), ('src/gendlopen.cpp', '''    /* create output file */
    save::open_ofstream(m_output, m_force);
    FILE *fp''', '''    FILE *fp''')],
     '-force, an existing output file and a template that cannot be read', 'the old output is lost although nothing was generated',
     "echo old >o; echo 'int f(int a);' | $g - -force -out=o -template=missing 2>/dev/null; grep -qx old o")

# ---- templates, second batch
FB = 'int foo(int a); int foobar(int b);'
rt('load-again', 'C01', [(T + 'c.c', 'return (gdo_load_lib_name(filename) && gdo_load_all_symbols());', 'return ((gdo_load_lib_name(filename) || gdo_lib_is_loaded()) && gdo_load_all_symbols());')],
   'gdo_load_lib_name_and_symbols() while another library is loaded', 'a second load is reported as successful', 'c', FB,
   'int main(void) { if (!gdo_load_lib()) return 2; return gdo_load_lib_name_and_symbols("other.so"); }\n')
rt('last-character', 'C02', [(T + 'c.c', 'strcmp(symbol + pfxlen, curr + pfxlen) == 0', 'strncmp(symbol + pfxlen, curr + pfxlen, curr_len - pfxlen - 1) == 0')],
   'a name that differs from a symbol in its last character only', 'the wrong symbol is loaded', 'c', 'int foo_a(int a); int foo_b(int b);',
   'int main(void) { if (!gdo_load_lib()) return 2; return gdo_load_symbol_name("foo_c"); }\n')
rt('loaded-keeps-error', 'C03', [(T + 'c.c', '''    _gdo_clear_error();

    if (gdo_all_symbols_loaded()) {
        return true;
    }
''', '''    if (gdo_all_symbols_loaded()) {
        return true;
    }

    _gdo_clear_error();
''')], 'a failed call between two calls of gdo_load_all_symbols()', 'an error is reported after success', 'c', FB,
   'int main(void) { if (!gdo_load_lib_and_symbols()) return 2; if (gdo_load_symbol(99)) return 2; if (!gdo_load_all_symbols()) return 2; return strcmp(gdo_last_error(), "no error") != 0; }\n')
rt('empty-dlerror', 'C07', [(T + 'cxx.cpp', 'm_errmsg = (ptr && *ptr) ? ptr : msg;', 'm_errmsg = ptr ? ptr : msg;')],
   'a linker that reports an empty message', 'a failed load has no error', 'c++', FB,
   'int main() { gdo::dl l("a"); open_ok = 0; dlerror_text = ""; if (l.load()) return 2; return l.error() == "no error"; }\n', True)
rt('forced-path', 'C04', [(T + 'c.c', '''        _gdo_call_dlclose(gdo_hndl.handle);
    }

    gdo_hndl.libpath[0] = 0;
''', '''        _gdo_call_dlclose(gdo_hndl.handle);
    }
''')], 'a path query, a forced release, another library and another path query', 'the path of the first library is returned', 'c', FB,
   '''int main(void) { if (!gdo_load_lib_name("a")) return 2; if (strcmp(gdo_library_path(), "/first")) return 2; gdo_force_free_lib(); nm = "/second"; if (!gdo_load_lib_name("b")) return 2; return strcmp(gdo_library_path(), "/second") != 0; }\n''',
   pre=r'''#include <dlfcn.h>
#include <link.h>
#include <string.h>
static const char *nm = "/first"; static struct link_map lm;
static int s_dlinfo(void *h, int r, void *o) { lm.l_name = (char *)nm; *(struct link_map **)o = &lm; return 0; }
#define dlinfo s_dlinfo
''')
rt('lazy-all', 'C05', [(T + 'c.c', '''    if (gdo_lib_is_loaded() || gdo_load_lib()) {
# ifdef''', '''    if (gdo_lib_is_loaded() || gdo_load_lib_and_symbols()) {
# ifdef''')], 'lazy auto-loading and a library that lacks another symbol', 'the program exits although the symbol that is called exists', 'c', FB,
   '#include <unistd.h>\nstatic void done(int c, void *p) { _exit(c); }\nint main(void) { on_exit(done, 0); missing = "foobar"; foo(1); return 0; }\n', cflags='-DGDO_ENABLE_AUTOLOAD_LAZY')
rt('flags-kept', 'C06', [(T + 'cxx.cpp', '    m_flags         = flags;', '    m_flags        |= flags;')],
   'two loads with different flags on the same object', 'the second library is opened with the flags of both', 'c++', FB,
   'int main() { gdo::dl l; l.load("a", RTLD_GLOBAL | RTLD_NOW); l.free(); l.load("b", RTLD_LAZY); return l.flags() != RTLD_LAZY; }\n', True)
rt('callback-once', 'C08', [(T + 'cxx.cpp', '            auto msg_callback = dl::message_callback();', '            static auto msg_callback = dl::message_callback();')],
   'lazy auto-loading, a symbol that is found, another callback, then a symbol that is missing', 'the callback set first is used', 'c++', FB,
   '#include <unistd.h>\nstatic void a(const char *) { _exit(1); }\nstatic void b(const char *) { _exit(0); }\nint main() { gdo::dl::message_callback(a); foo(1); gdo::dl::message_callback(b); missing = "foobar"; foobar(1); return 2; }\n', True, cflags='-DGDO_ENABLE_AUTOLOAD_LAZY')
rt('min-early-free', 'C09', [(T + 'minimal.h', '''    gdo_hndl.handle = NULL;
    gdo_hndl.GDO_PTR_%%symbol%% = NULL;
}''', '''    gdo_hndl.handle = NULL;
}''')], 'a library that is released', 'the pointers to its symbols are left', 'minimal', FB,
   'int main(void) { if (gdo_load_library_and_symbols("a")) return 2; gdo_free_library(); return gdo_hndl.GDO_PTR_foo || gdo_hndl.GDO_PTR_foobar; }\n')
rt('min-old-handle', 'C10', [(T + 'minimal_cxxeh.hpp', '            return ::dlsym(handle, symbol);', '            static void *lib = handle;\n            return ::dlsym(lib, symbol);')],
   'a second library loaded after the first', 'symbols are looked up in the library that was closed', 'minimal-c++', FB,
   'int main() { gdo::load_library_and_symbols("a"); void *h = gdo::handle; gdo::load_library_and_symbols("b"); return gdo::handle == h || symlib != gdo::handle; }\n', True)
rt('plugin-release', 'C11', [(T + 'plugin.c', '''        free(plug->list[i].filename);

        if (plug->list[i].handle) {''', '''        if (!plug->list[i].filename) {
            break;
        }

        free(plug->list[i].filename);

        if (plug->list[i].handle) {''')],
   'a list with an empty name before others', 'the plugins after it are not released', 'plugin', FB,
   'int main(void) { const char *f[] = {"a", "", "c"}; gdo_plugin_t *p = gdo_load_plugins(f, 3); if (!p) return 2; gdo_release_plugins(p); return closes != 2; }\n')
rt('libname-int', 'C28', [(T + 'cxx.cpp', 'return "lib" + name + ".so." + std::to_string(api);', 'return "lib" + name + ".so." + std::to_string(static_cast<int>(api));')],
   'a number above the range of int', 'another number is used', 'c++', FB,
   'int main() { return gdo::make_libname("x", 4294967296) != "libx.so.4294967296"; }\n', True)
rt('libname-android', 'C28', [(T + 'filename_macros.h', '# define GDO_LIBNAMEA(NAME, API)   "lib" #NAME ".so"\n', '# define GDO_LIBNAMEA(NAME, API)   "lib" #NAME ".so." #API\n')],
   'an Android target', 'the number is part of the name', 'c', FB,
   'int main(void) { return strcmp(GDO_LIBNAME(x, 1), "libx.so") != 0; }\n', pre='#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <link.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <fcntl.h>\n#include <limits.h>\n#include <sys/ioctl.h>\n#define __ANDROID__ 1\n')
rt('libext-wide', 'C28', [(T + 'filename_macros.h', '#if defined(_WIN32) && defined(_UNICODE)', '#if defined(_UNICODE)')],
   '_UNICODE defined on another system than Windows', 'the plain macros are wide strings', 'c', FB,
   'int main(void) { return sizeof(GDO_LIBEXT "") != 4; }\n', cflags='-D_UNICODE')
# --- generator, second batch
seed('array-dims', 'C15', [('src/parse.cpp', 'parse::append_strings(p.type, it /* first bracket */, v.end());', 'parse::append_strings(p.type, it /* first bracket */, std::find(it, v.end(), "]") + 1);'), ('src/parse.cpp', '#include <string>\n', '#include <algorithm>\n#include <string>\n')],
     'an array with more than one dimension', 'only the first dimension is kept', "echo 'extern int m[2][3];' | $g - >o && grep -q '^typedef int gdo_m__t\\[2\\]\\[3\\];' o")
seed('prefixed-and-listed', 'C18', [('src/parse.cpp', '                if (std::erase(m_symbol_list, e.symbol) > 0) {', '                if (!e.saved && std::erase(m_symbol_list, e.symbol) > 0) {')],
     'a symbol that is selected by -P and by -S', 'the symbol is reported as not found', "printf 'int foo(int a);\\nint bar(int b);\\n' | $g - -P fo -S foo -print-symbols >o 2>&1 && grep -q 'int foo(int a);' o")
seed('ast-digit-names', 'C19', [('src/clang_ast.cpp', '''        "^[|`]-VarDecl 0x.*?"
        " ([a-zA-Z0-9_]*?) "  /* symbol */''', '''        "^[|`]-VarDecl 0x.*?"
        " ([a-zA-Z_]*?) "  /* symbol */''')],
     'a variable with a digit in its name', 'the variable is ignored',
     '''printf '%s\\n' 'TranslationUnitDecl 0x1 <<invalid sloc>> <invalid sloc>' "|-VarDecl 0x2 <line:1:1, col:5> col:5 v2 'int' extern" "\\`-VarDecl 0x3 <line:2:1, col:5> col:5 w 'int' extern" | $g - -ast-all-symbols -print-symbols >o && grep -q '^int v2;' o''')
seed('pad-one-char', 'C20', [('src/substitute.cpp', '''        if (longest > 0) {
            std::string s = e.symbol;
            s.append(longest - e.symbol.size(), ' ');
            utils::replace("%%obj_symbol_pad%%", s, copy);''', '''        if (longest > 1) {
            std::string s = e.symbol;
            s.append(longest - e.symbol.size(), ' ');
            utils::replace("%%obj_symbol_pad%%", s, copy);''')],
     'objects whose names all have one character', '%%obj_symbol_pad%% is left in the output', "echo '<%%obj_symbol_pad%%>' >t; echo 'extern int x, y;' >/dev/null; echo 'extern int x; extern int y;' | $g - -template=t >o && grep -qx '<x>' o")
seed('lower-prefix', 'C21', [('src/gendlopen.cpp', 'm_pfx_lower = utils::to_lower(m_pfx);', 'm_pfx_lower = utils::to_lower(m_pfx, false);')],
     'a prefix with a character that is not allowed in identifiers', 'names derived from the prefix are no identifiers', "echo 'gdo_x GDO_X' >t; echo 'int f(int a);' | $g - -template=t -prefix=my-lib >o && grep -qx 'my_lib_x MY_LIB_X' o")
seed('guard-lines', 'C22', [('src/generate.cpp', '''            "#ifndef " + guard + "\\n"
            "#define " + guard + "\\n\\n";
    }
''', '''            "#ifndef " + guard + "\\n"
            "#define " + guard + "\\n\\n";
    }

    const size_t guard_lines = 3; /* empty line, guard, empty line */
    size_t lines = guard_lines;
'''), ('src/generate.cpp', '''            "extern \\"C\\" {\\n"
            "#endif\\n\\n";
    }

    ofs << str;

    return utils::count_linefeed(str);''', '''            "extern \\"C\\" {\\n"
            "#endif\\n\\n";
        lines += 4;
    }

    ofs << str;

    return lines;''')],
     '-line together with -no-pragma-once', 'line directives after the guard are off by one',
     '''echo 'int f(int a);' | $g - -line -no-pragma-once -no-date -out=o.h && awk '/^#line [0-9]+ "o.h"/{ if ($2 != NR+1) exit 1 }' o.h''')
seed('dash-value', 'C12', [('src/opt_parser.h', '''        if (a->iter >= a->argc) {
            _opt_handle_error(''', '''        if (a->iter >= a->argc || a->argv[a->iter][0] == '-') {
            _opt_handle_error(''')],
     'an option value that is given as the next argument and begins with a dash', 'the option is refused', "echo 'int f(int a);' | $g - -out - >o && grep -q gdo_ o")
seed('force-dangling', 'C23', [('src/generate.cpp', '''    if (force) {''', '''    if (force && fs::exists(opath)) {''')],
     '-force and an output path that is a dangling symlink', 'the run fails although -force was given', "ln -s nowhere o.h; echo 'int f(int a);' | $g - -force -out=o.h && [ ! -L o.h ] && [ -s o.h ]")
seed('objects-ignored', 'C25', [('src/generate.cpp', '''            if (compare_chars_at(v_prot, it0, i) ||
                compare_chars_at(v_obj, it0, i))''', '''            if (compare_chars_at(v_prot.empty() ? v_obj : v_prot, it0, i))''')],
     'functions with a common prefix that the objects do not share', 'objects cannot be loaded by name', "printf 'int ab_x(int a);\\nint ab_y(int a);\\nextern int other;\\n' | $g - >o && grep -qx '#define GDO_COMMON_PREFIX \"\"' o")
seed('nq-upper', 'C26', [('src/gendlopen.cpp', '    if (utils::prefixed_and_longer_case(inc, "nq:")) {', '    if (inc.starts_with("nq:") && inc.size() > 3) {')],
     '-include with the prefix in capitals', 'the prefix becomes part of the file name', "echo 'int f(int a);' | $g - -include=NQ:HEADER >o && grep -qx '#include HEADER' o")
seed('minimal-separate', 'C27', [('src/generate.cpp', '''    case output::minimal:
        m_separate = false;
        break;
''', '''    case output::minimal:
        break;
''')],
     '-format=minimal with -separate and an output name with another extension', 'the output gets another name', "echo 'int f(int a);' | $g - -format=minimal -separate -out=o.hh && [ -s o.hh ]")
seed('dump-joined', 'C24', [('src/data.cpp', '''                for (const char &c : list->data) {
                    if (c == '\\n') {
                        ofs << "@\\n";
                    } else {
                        ofs << c;
                    }
                }
''', '''                std::string data = list->data;
                data.insert(data.find('\\n'), 1, '@');
                ofs << data;
''')],
     'a template line that joins more than two lines', 'dumped templates differ from the embedded ones',
     "echo 'int f(int a); extern int o;' >i; $g -dump-templates=t >/dev/null; for f in c c++ plugin minimal minimal-c++; do $g i -no-date -format=$f >a; $g i -no-date -format=$f -templates-path=t >b; cmp a b || exit 1; done")
seed('illegal-sign', 'C14', [('src/lex.l', 'unsigned char c = (unsigned char)*yytext;', 'char c = *yytext;'), ('src/lex.yy.c', 'unsigned char c = (unsigned char)*yytext;', 'char c = *yytext;')],
     'a byte above 127 outside of comments', 'the error names another character', "printf 'int \\351;' | $g - 2>e; grep -q '\\[0xE9\\]' e")
def two(id, edits, needs, breaks, inp2, gen, main, cflags=''):
    seed(id, 'C30', edits, needs, breaks,
         f"""mkdir x y; i() {{ printf '%s\\n' '{inp2}'; }}; {gen} && gcc -w {cflags} -I. -I"$h" "$h/demo.c" -o demo && ./demo""", {'demo.c': main})
two('guard-noprefix', [('src/generate.cpp', '''std::string guard = '_' + pfx_upper + '_' + utils::to_upper(header_name) + '_';''', '''std::string guard = '_' + utils::to_upper(header_name) + "_INCLUDED_";''')],
    'two generated headers with the same file name, -no-pragma-once', 'the second header is empty', 'int foo(int a); int bar(int b);',
    'i | $g - -prefix=aa -no-pragma-once -out=x/l.h && i | $g - -prefix=bb -no-pragma-once -out=y/l.h',
    '#include "x/l.h"\n#undef foo\n#undef bar\n#include "y/l.h"\nint main(void) { return aa_lib_is_loaded() || bb_lib_is_loaded(); }\n', '-D_GNU_SOURCE')
two('typedef-noprefix', [('src/tokenize.cpp', '''            name = m_pfx_lower + '_' + p.symbol + "__t";
            def = array_typedef(p.type, name);''', '''            name = "gdo_" + p.symbol + "__t";
            def = array_typedef(p.type, name);'''), ],
    'two libraries with arrays of the same name and different types', 'the headers cannot be used together', 'int foo(int a);',
    "echo 'int arr[4]; int foo(int a);' | $g - -prefix=aa -out=x/l.h && echo 'char arr[2]; int foo(int a);' | $g - -prefix=bb -out=y/l.h",
    '#define AA_DISABLE_ALIASING\n#define BB_DISABLE_ALIASING\n#include "x/l.h"\n#include "y/l.h"\nint main(void) { return aa_lib_is_loaded() || bb_lib_is_loaded(); }\n', '-D_GNU_SOURCE')
rt('alias-visible', 'C29', [(T + 'c.c', '''#if !defined(GDO_SEPARATE) && \\
    !defined(GDO_DISABLE_ALIASING)
''', '''#if !defined(GDO_SEPARATE) && \\
    !(defined(GDO_DISABLE_ALIASING) || defined(GDO_WRAP_VISIBILITY))
''')], 'GDO_WRAP_VISIBILITY and a library with objects', 'the names of the objects are not declared', 'c', 'int foo(int a); extern int obj;',
   'int main(void) { if (!gdo_load_lib_and_symbols()) return 2; return obj != *GDO_RAWPTR_obj; }\n', cflags='-DGDO_WRAP_FUNCTIONS -DGDO_WRAP_VISIBILITY=')
rt('alias-static', 'C29', [(T + 'minimal.h', '''#if !defined(GDO_DISABLE_ALIASING)
''', '''#if !defined(GDO_DISABLE_ALIASING) && !defined(GDO_STATIC)
''')], 'the minimal loader with static linkage', 'the original names are not declared', 'minimal', 'int foo(int a); extern int obj;',
   'int main(void) { if (gdo_load_library_and_symbols("l.so")) return 2; return foo(3) != 3; }\n', cflags='-DGDO_STATIC')
seed('option-repeated', 'C13', [('src/options.cpp', '''    for (const auto &token : options) {
        if (token == "line") {''', '''    vstring_t seen;

    for (const auto &token : options) {
        if (std::find(seen.begin(), seen.end(), token) != seen.end()) {
            /* already set */
            continue;
        }
        seen.push_back(token);

        if (token == "line") {'''), ('src/options.cpp', '#include <string>\n', '#include <algorithm>\n#include <string>\n')],
    'the same %option string twice with another value in between', 'the value in between wins',
    '''printf '%%option prefix=aa\\n%%option prefix=bb\\nint f(int a);\\n%%option prefix=aa\\n' >i && $g i -no-date >o && $g i -ignore-options -no-date -prefix=aa -prefix=bb -prefix=aa >q && cmp o q''')
seed('create-array-dims', 'C17', [('src/parameter_names.cpp', '''        append_name(proto, param_count, " ");
        parse::append_strings(proto.args, it, v.end());
        proto.args += ", ";

        return true;
    }


    bool get_function_pointer_type''', '''        append_name(proto, param_count, " ");
        parse::append_strings(proto.args, it, it + (v.end() - it > 6 ? 6 : v.end() - it));
        proto.args += ", ";

        return true;
    }


    bool get_function_pointer_type''')],
    '-param=create and an unnamed array parameter of three dimensions', 'the third dimension is lost',
    "echo 'int f(int [2][3][4]);' | $g - -param=create -print-symbols | tr -d ' ' >o && grep -q '^intf(inta1\\[2\\]\\[3\\]\\[4\\]);' o")
seed('create-no-parameter', 'C16', [('src/parameter_names.cpp', '''    for (auto &v : proto.args_vec)
    {
        if (v.empty()) {
            msg = "empty parameter in function `" + proto.symbol + "'";
            return false;
        }

        /* check if''', '''    for (auto &v : proto.args_vec)
    {
        /* check if''')],
    '-param=create and an empty parameter', 'the first element of an empty vector is used',
    "echo 'int f(int a,,int b);' | $g - -param=create -print-symbols >o 2>e; [ $? = 1 ] && grep -q 'empty parameter' e")
seed('ast-desugared', 'C19', [('src/clang_ast.cpp', '''        "^[| ] [|`]-ParmVarDecl 0x.*?"
        " '(.*?)'.*"  /* type */''', '''        "^[| ] [|`]-ParmVarDecl 0x.*?"
        " '(.*)'.*"  /* type */''')],
    'a parameter whose type Clang prints twice, as written and without typedefs', 'both types end up in the declaration',
    '''printf '%s\\n' 'TranslationUnitDecl 0x1 <<invalid sloc>> <invalid sloc>' "\\`-FunctionDecl 0x2 <line:1:1, col:5> col:5 f 'int (size_t)'" "  \\`-ParmVarDecl 0x3 <col:7, col:9> col:9 n 'size_t':'unsigned long'" | $g - -ast-all-symbols -print-symbols >o && grep -q '^int f(size_t a1);' o''')
rt('default-narrow', 'C31', [(T + 'common.h', '''# if defined(GDO_DEFAULT_LIBA) && !defined(_GDO_TARGET_WIDECHAR)
#  define GDO_DEFAULT_LIB  GDO_DEFAULT_LIBA''', '''# if defined(GDO_HARDCODED_DEFAULT_LIBA) && !defined(_GDO_TARGET_WIDECHAR)
#  define GDO_DEFAULT_LIB  GDO_HARDCODED_DEFAULT_LIBA''')],
   'the user defines GDO_DEFAULT_LIBA instead of GDO_DEFAULT_LIB', "the library of -library is opened, not the user's", 'c', 'int foo(int a);',
   'int main(void) { return strcmp(GDO_DEFAULT_LIB, "mine.so") != 0; }\n', pre='#define GDO_DEFAULT_LIBA "mine.so"\n')
rt('default-both', 'C31', [(T + 'c.c', '''    return gdo_load_lib_name(GDO_DEFAULT_LIB);''', '''# ifdef _GDO_TARGET_WIDECHAR
    return gdo_load_lib_name(GDO_DEFAULT_LIBW);
# else
    return gdo_load_lib_name(GDO_DEFAULT_LIBA);
# endif''')],
   'the user defines GDO_DEFAULT_LIB and the header was created with -library', "the library of -library is opened, not the user's", 'c', 'int foo(int a);',
   '#define GDO_DEFAULT_LIB "mine.so"\n#include "h.h"\nint main(void) { failfile = "libx.so"; return !gdo_load_lib(); }\n', pre='#define GDO_DEFAULT_LIB "mine.so"\n')
seed('write-rdbuf', 'C32', [('src/cio_ofstream.cpp', '        m_ofs.close();\n', '        m_ofs.rdbuf()->close();\n')],
    'an output file of less than one buffer and a device that is full when the file is closed', 'truncated output is reported as success',
    '''echo 'int f(int a);' >i; printf 'some text\\n' >t; (trap '' XFSZ; ulimit -f 0; $g i -template=t -out=o.h 2>&1 | cat >/dev/null; exit ${PIPESTATUS[0]}); [ $? = 1 ]''')
seed('write-header', 'C32', [('src/generate.cpp', """    save::close_ofstream(ofhdr);


    /**************** body data ****************/
    if (!body_data.empty()) {
""", """    if (body_data.empty()) {
        save::close_ofstream(ofhdr);
    } else {
        /**************** body data ****************/
""")],
    '-separate, and a header that does not fit while the body does', 'a truncated header is reported as success',
    """x=$(printf '%020000d' 7); echo 'int f(int a);' >i; mkdir p q; (cd p; $g ../i -D X=$x -separate -no-date -out=o.h); h=$(stat -c %s p/o.h); b=$(stat -c %s p/o.c); [ $b -lt $h ] || exit 2; cd q; (trap '' XFSZ; prlimit --fsize=$((h-1)) $g ../i -D X=$x -separate -no-date -out=o.h 2>&1 | cat >/dev/null; exit ${PIPESTATUS[0]}); [ $? = 1 ]""")
seed('write-stdio', 'C32', [('src/data.cpp', """        cio::ofstream ofs;

        utils::append""", """        std::ofstream ofs;

        utils::append"""), ('src/data.cpp', """        if (!ofs.open(path)) {""", """        ofs.open(path, std::ios_base::out | std::ios_base::binary);

        if (!ofs) {"""), ('src/data.cpp', """        if (!ofs.close()) {
""", """        if (!ofs) {
"""), ('src/data.cpp', '#include "cio_ofstream.hpp"\n', '#include <fstream>\n')],
    '-dump-templates and a device that is full when the last buffer of a file is written', 'a truncated template is reported as success',
    """mkdir q d; $g -dump-templates=q >/dev/null; m=$(for f in q/*; do stat -c %s $f; done | sort -n | tail -1); (trap '' XFSZ; prlimit --fsize=$((m-1)) $g -dump-templates=d 2>&1 | cat >/dev/null; exit ${PIPESTATUS[0]}); [ $? = 1 ]""")
seed('read-clearerr', 'C32', [('src/utils.cpp', """    return (c != EOF);
}


/* append""", """    if (c == EOF) {
        /* allow to continue reading from a terminal */
        ::clearerr(fp);
        return false;
    }

    return true;
}


/* append""")],
    'a custom template or a template file that fails with an I/O error while it is read', 'the error is taken for the end of the file, the output is incomplete',
    """echo 'int f(int a);' >i; ln -s /proc/self/mem t; $g i -template=t >/dev/null 2>e; [ $? = 1 ]""")
seed('template-order', 'C23', [('src/generate.cpp', """    /* create template data */
    create_template_lists(header_data, body_data);

""", ''), ('src/generate.cpp', """    save::open_ofstream(ofhdr, m_force);

    lines +=""", """    save::open_ofstream(ofhdr, m_force);
    create_template_lists(header_data, body_data);

    lines +=""")],
    '-force, an existing output file and a -templates-path directory in which a template is missing', 'the existing file is gone although nothing can be generated',
    """mkdir d; $g -dump-templates=d >/dev/null; rm d/c.h; echo 'int f(int a);' >i; echo old >o.h; $g i -templates-path=d -force -out=o.h 2>/dev/null; [ $? = 1 ] && [ "$(cat o.h)" = old ]""")
