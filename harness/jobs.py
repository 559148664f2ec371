# The harnesses of each property, their bounds and budgets.
import os
from vlib import Job
import vlib
JOBS = {}; KIND = {}; NA = {}
ASSUME = {
 'gen': ['C++ library, stdio and file system are modelled (rt/), the program itself is executed as compiled by clang -O1 from the current source', 'C locale, POSIX paths, allocation never fails', 'symbolic positions and alphabets as stated in the bounds of each job; everything around them is concrete'],
 'lib': ['the dynamic linker is a stub answering with arbitrary symbolic values', 'allocation never fails', 'generated code as produced by the generator built from the current tree, compiled by clang -O1 for x86_64 Linux'],
}
def gen(prop, *jobs): JOBS[prop] = list(jobs); KIND[prop] = 'gen'
def lib(prop, *jobs):
    JOBS.setdefault(prop, []).extend(jobs); KIND[prop] = 'lib'
    for j in jobs:
        if not j.probe and j.src in API: j.probe = api(API[j.src] + ('x' if '-DMCXX' in j.flags else ''), 'gdo')
# uses of everything a loader documents; the generated code has to compile with them even where the harness does not build
API = {'capi.c': 'c', 'c04.c': 'c', 'c05.c': 'c', 'cxxapi.cpp': 'x', 'c04.cpp': 'x', 'c05.cpp': 'x', 'minimal.c': 'm', 'plugin.c': 'p'}
def api(k, p):
    t = {'c': 'bool probe_%s(int n_) { gdo_force_free_lib(); return gdo_load_lib() | gdo_load_lib_and_symbols() | gdo_load_lib_name(gdo_last_error()) | gdo_load_lib_name_and_symbols(gdo_library_path()) | gdo_load_lib_args(gdo_last_error(), n_, false) | gdo_lib_is_loaded() | gdo_free_lib() | gdo_enable_autorelease() | gdo_load_all_symbols() | gdo_load_symbol(n_) | gdo_load_symbol_name("a") | gdo_all_symbols_loaded() | gdo_no_symbols_loaded() | gdo_any_symbol_loaded(); }',
         'x': 'bool probe_%s(int n_) { gdo::dl o_("a"), d_; o_.free_lib_in_dtor(false); std::string s_ = d_.library_path() + d_.filename() + d_.error(); return d_.load(s_) | d_.load(s_, d_.flags(), true) | d_.load() | d_.load_lib_and_symbols() | gdo::dl::lib_loaded() | d_.load_all_symbols() | d_.load_symbol(n_) | d_.load_symbol("a") | d_.all_symbols_loaded() | d_.no_symbols_loaded() | d_.any_symbol_loaded() | d_.free() | d_.free(true) | d_.free_lib_in_dtor(); }',
         'm': 'int probe_%s(void) { gdo_free_library(); return gdo_load_library_and_symbols("a") != NULL; }', 'mx': 'void probe_%s(void) { gdo::load_library_and_symbols("a"); gdo::free_library(); }',
         'p': 'void probe_%s(void) { gdo_release_plugins(gdo_load_plugins(NULL, 0)); }'}[k]
    return (t % p).replace('gdo', p)
def J(name, src, q, t=None, **kw): return Job(name, src, q, t, **kw)
A = ['accepted', 'rejected']
gen('C16',
    J('bytes', 'c16.cpp', {'MODE': 0, 'N': 3}, {'MODE': 0, 'N': 4}, bounds='input file of N arbitrary bytes', covers=['rejected']),
    J('inside', 'c16.cpp', {'MODE': 1, 'N': 2}, {'MODE': 1, 'N': 3}, bounds='N arbitrary bytes between the name and the parameter list of a prototype', covers=A),
    J('tokens', 'c16.cpp', {'MODE': 2, 'N': 3}, {'MODE': 2, 'N': 5}, bounds='N characters of " a1_;(*,)[]." in 9x5 surroundings', covers=A),
    J('params', 'c16.cpp', {'MODE': 3, 'N': 3}, {'MODE': 3, 'N': 5}, bounds='N characters of " a;(*,)[]." in a parameter list, read and create mode', covers=A),
    J('blocks', 'c16.cpp', {'MODE': 4, 'N': 4}, {'MODE': 4, 'N': 6}, bounds='N characters of "{};=a (" after a name or struct', covers=A),
    J('comments', 'c16.cpp', {'MODE': 5, 'N': 3}, {'MODE': 5, 'N': 5}, bounds='N characters of comments, quotes and preprocessor lines between declarations', covers=A),
    J('options', 'c16.cpp', {'MODE': 6, 'N': 4}, {'MODE': 6, 'N': 6}, bounds='N characters after %option', covers=A))
C15C = ['function', 'object', 'typedef']
gen('C15',
    J('one', 'c15.cpp', {'D': 1, 'SY': 2, 'TY': 6, 'TY2': 1, 'AR': 12, 'AR2': 1, 'SP': 5}, {'D': 1, 'SY': 3, 'TY': 6, 'TY2': 1, 'AR': 12, 'AR2': 1, 'SP': 5}, bounds='one declaration: 10 declarator forms x 6 types x 12 parameter lists x 5 spacings; SY characters of the name and up to 2 of the type symbolic', covers=C15C),
    J('two', 'c15.cpp', {'D': 2, 'SY': 1, 'TY': 3, 'TY2': 2, 'AR': 3, 'AR2': 2, 'SP': 1}, {'D': 2, 'SY': 1, 'TY': 6, 'TY2': 3, 'AR': 6, 'AR2': 3, 'SP': 2}, bounds='two declarations in all combinations of forms', covers=C15C),
    J('three', 'c15.cpp', {'D': 3, 'SY': 1, 'TY': 1, 'TY2': 1, 'AR': 1, 'AR2': 1, 'SP': 1}, {'D': 3, 'SY': 1, 'TY': 2, 'TY2': 2, 'AR': 2, 'AR2': 2, 'SP': 1}, bounds='three declarations', covers=C15C))
gen('C17',
    J('params', 'c17.cpp', {'PM': 3}, {'PM': 4}, bounds='one function with up to PM parameters of 12 (read, skip) or 10 (create) forms, symbolic characters in all names', covers=A),
    J('deep', 'c17.cpp', {'DEEP': 3}, {'DEEP': 5}, bounds='one function whose last parameter has up to DEEP words before the type, DEEP stars, DEEP+1 dimensions or a function pointer with DEEP parameters', covers=['accepted']),
    J('many', 'c17.cpp', {'MANY': 13}, {'MANY': 130}, bounds='one function with MANY-3 to MANY parameters, one of them of another form at every position', covers=['accepted']))
gen('C18',
    J('filters', 'c18.cpp', {'M': 2, 'LEN': 2, 'NF': 2, 'SEPARG': 0}, {'M': 3, 'LEN': 2, 'NF': 2, 'SEPARG': 1}, bounds='M declarations with names of up to LEN symbolic characters, up to NF -P/-S options with symbolic values', covers=['duplicate', 'missing', 'empty', 'selected']),
    J('three', 'c18.cpp', {'M': 3, 'LEN': 2, 'NF': 1, 'SEPARG': 0}, {'M': 4, 'LEN': 2, 'NF': 1, 'SEPARG': 0}, bounds='M declarations with names of up to LEN symbolic characters, up to one filter', covers=['duplicate', 'missing', 'empty', 'selected']))
gen('C12',
    J('spelling', 'c12.cpp', {'MODE': 0, 'PAIR': 0}, {'MODE': 0, 'PAIR': 1}, bounds='pairs of 19 options with up to two values each, spelling of one of them (quick) or both (thorough) varied, three positions of the input file', covers=['works', 'fails', 'override']),
    J('names', 'c12.cpp', {'MODE': 1}, bounds='every option name with one arbitrary byte inserted, replaced or one character removed', covers=['known', 'unknown']),
    J('missing', 'c12.cpp', {'MODE': 2}, bounds='every value option without or with an empty value', covers=['missing']),
    J('values', 'c12.cpp', {'MODE': 3}, bounds='values of -format and -param with one arbitrary byte, or one or two arbitrary bytes', covers=['valid', 'invalid']),
    J('arguments', 'c12.cpp', {'MODE': 4}, bounds='non-option arguments of up to two arbitrary bytes', covers=['first', 'second']),
    J('override', 'c12.cpp', {'MODE': 6}, bounds='every pair of documented values of the seven single-valued options, one after the other', covers=['override']),
    J('dash', 'c12.cpp', {'MODE': 7}, bounds='every value option with values beginning with a dash (seven forms, one symbolic character), as the next argument against attached', covers=['works', 'fails']),
    J('help', 'c12.cpp', {'MODE': 5}, bounds='help, version and missing input file', covers=['help', 'noinput']))
gen('C13',
    J('same', 'c13.cpp', {'MODE': 0, 'NO': 2}, {'MODE': 0, 'NO': 3}, bounds='up to NO of the 9 %option strings with symbolic characters in their values, six layouts (spaces, continuations, several lines), five places in the input, one of them in a type block and one in a prototype', covers=['same']),
    J('ignored', 'c13.cpp', {'MODE': 1, 'NO': 1}, {'MODE': 1, 'NO': 2}, bounds='as above with -ignore-options, and junk options', covers=['ignored']),
    J('names', 'c13.cpp', {'MODE': 2}, bounds='every option name with one character of 20 inserted, replaced or one removed', covers=['known', 'unknown', 'valueless']),
    J('layout', 'c13.cpp', {'MODE': 3, 'N': 4}, {'MODE': 3, 'N': 6}, bounds='N characters of white space, backslash and x between %option and its word', covers=['known', 'unknown']))
gen('C14',
    J('comments', 'c14.cpp', {'MODE': 0, 'N': 2}, {'MODE': 0, 'N': 3}, bounds='a block or line comment with N arbitrary bytes at each of 24 token boundaries', covers=['same', 'undecided']),
    J('chars', 'c14.cpp', {'MODE': 1, 'N': 4, 'SETC': '"/*\\\\\\n \\"#a"'}, {'MODE': 1, 'N': 6, 'SETC': '"/*\\\\\\n \\"#a"'}, bounds='N characters of comments, line splits, literals and directives in five surroundings', covers=['same', 'undecided', 'illegal']),
    J('space', 'c14.cpp', {'MODE': 2, 'N': 2}, {'MODE': 2, 'N': 3}, bounds='runs of N white space characters everywhere, BOM, extern', covers=['same']),
    J('blocks', 'c14.cpp', {'MODE': 3, 'N': 2}, {'MODE': 3, 'N': 4}, bounds='struct, union, enum and typedef blocks with N characters of nested braces, literals, operators', covers=['same', 'unclosed', 'rest']),
    J('texts', 'c14.cpp', {'MODE': 4, 'EDIT': 0}, bounds='ten realistic ignorable texts in pairs, LF and CRLF', covers=['same']),
    J('edits', 'c14.cpp', {'MODE': 4, 'EDIT': 1}, bounds='these texts with one character of 8 inserted or replaced at every position', covers=['same', 'undecided', 'illegal']))
AST0 = {'LEN': 1, 'NF': 0, 'NV': 12, 'NR': 7, 'NR2': 4, 'NT': 14, 'NT2': 3, 'TLS': 4, 'M': 1}
gen('C19',
    J('types', 'c19.cpp', dict(AST0, NP=2), dict(AST0, NP=2, NT2=14, NR2=7, FULL=1), bounds='one declaration: 12 variable types, functions with 7 return types and up to NP parameters of 14 types, variadic or not, attributes and bodies, named and unnamed parameters, colours, CRLF', covers=['function', 'variable', 'typedef']),
    J('filters', 'c19.cpp', dict(AST0, M=2, NF=2, NP=1, NT=1, NT2=1, NV=2, NR=1, NR2=1, TLS=4), dict(AST0, M=3, NF=2, LEN=2, NP=1, NT=1, NT2=1, NV=2, NR=1, NR2=1, TLS=4), bounds='M declarations or nested ones with symbolic names, up to NF filters with symbolic text, redeclarations', covers=['function', 'variable', 'missing', 'empty', 'nofilter']),
    J('names', 'c19.cpp', dict(AST0, M=1, NF=1, LEN=2, NP=1, NT=2, NT2=1, NV=2, NR=1, NR2=1, TLS=1, WIDE=1), dict(AST0, M=1, NF=1, LEN=4, NP=1, NT=2, NT2=1, NV=2, NR=1, NR2=1, TLS=1, WIDE=1), bounds='one declaration with a name of up to LEN arbitrary identifier characters', covers=['function', 'variable']),
    J('several', 'c19.cpp', dict(AST0, M=3, NF=1, NP=1, NT=1, NT2=1, NV=1, NR=1, NR2=1, TLS=4), dict(AST0, M=4, NF=1, NP=1, NT=1, NT2=1, NV=1, NR=1, NR2=1, TLS=4), bounds='M declarations and one filter', covers=['function', 'variable', 'missing', 'empty', 'nofilter']))
ME = ['mixed', 'expanded']
gen('C20',
    J('segments', 'c20.cpp', {'MODE': 0, 'N': 3}, {'MODE': 0, 'N': 4}, bounds='templates of N segments: 11 placeholders, a symbolic character, line ends, joined lines, stray % and @; functions only, objects only, both; with and without -param=skip', covers=ME),
    J('placeholders', 'c20.cpp', {'MODE': 1}, bounds='every placeholder with one arbitrary byte replaced, inserted or removed', covers=['expanded']),
    J('bytes', 'c20.cpp', {'MODE': 2, 'N': 2}, {'MODE': 2, 'N': 3}, bounds='N arbitrary bytes in a line and one at the end of the file', covers=['expanded']),
    J('pads', 'c20.cpp', {'MODE': 4, 'N': 2}, {'MODE': 4, 'N': 3}, bounds='up to N functions and N objects with names of one to three characters, padded and not', covers=['expanded']),
    J('sections', 'c20.cpp', {'MODE': 3, 'N': 2}, {'MODE': 3, 'N': 3}, bounds='N lines of section markers and other lines, one character changed', covers=ME))
R = ['renamed']
gen('C21',
    J('around', 'c21.cpp', {'MODE': 0, 'N': 1, 'PX': 3}, {'MODE': 0, 'N': 2, 'PX': 8}, bounds='two occurrences of 8 forms with symbolic characters before, between and after, PX prefixes', covers=R),
    J('prefix', 'c21.cpp', {'MODE': 1, 'N': 2}, {'MODE': 1, 'N': 3}, bounds='prefix of N arbitrary bytes', covers=R),
    J('bytes', 'c21.cpp', {'MODE': 2}, bounds='arbitrary bytes around gdo and GDO_', covers=R),
    J('headers', 'c21.cpp', {'MODE': 3, 'NF': 3}, {'MODE': 3, 'NF': 5}, budget=(120, 800), bounds='complete output of the formats with a symbolic prefix character: no identifier of the default prefix left', covers=R))
gen('C22',
    J('custom', 'c22.cpp', {'MODE': 0, 'N': 3}, {'MODE': 0, 'N': 4}, bounds='custom templates of N pieces of 14 kinds (plain, blank, joined, CRLF, placeholders, section markers), to a file, standard output or read from standard input; functions only, objects only, both; with and without -param=skip', covers=['mapped']),
    J('path', 'c22.cpp', {'MODE': 1, 'N': 1}, {'MODE': 1, 'N': 2}, bounds='the same pieces as every file of -templates-path, 5 formats, single file and separate, stdout', covers=['mapped']),
    J('off', 'c22.cpp', {'MODE': 1, 'N': 1, 'OFF': 1}, bounds='the same without -line, the template files beginning with a line directive of their own, having one as the second line or none', covers=['off']),
    J('eoff', 'c22.cpp', {'MODE': 2, 'OFF': 1}, bounds='the complete embedded templates without -line', covers=['off']),
    J('embedded', 'c22.cpp', {'MODE': 2}, bounds='the complete embedded templates, 5 formats, single file, separate, stdout', covers=['mapped']))
gen('C23',
    J('exists', 'c23.cpp', {'MODE': 0}, bounds='nothing, file, empty or full directory, symlink to a file, a directory, nothing or itself at each output path; header and body, templates, -force, in the current or a sub directory', covers=['refused', 'written']),
    J('path', 'c23.cpp', {'MODE': 1, 'N': 4}, {'MODE': 1, 'N': 5}, bounds='output paths of N characters of "ox./-h" within the current directory', covers=['refused', 'written']),
    J('unusable', 'c23.cpp', {'MODE': 2}, bounds='missing directories, files or links as directories, unusable inputs and templates', covers=['refused', 'written']))
gen('C32',
    J('custom', 'c32.cpp', {'MODE': 0, 'N': 2}, {'MODE': 0, 'N': 4}, bounds='custom templates of up to N lines of 5 kinds, to a file or standard output, with and without -line, for every number of bytes (below 2^24) a file can take', covers=['complete', 'refused']),
    J('formats', 'c32.cpp', {'MODE': 1, 'N': 0}, bounds='five formats, single file, header and body, standard output, for every number of bytes a file can take', covers=['complete', 'refused']),
    J('dump', 'c32.cpp', {'MODE': 2, 'N': 0}, bounds='-dump-templates, for every number of bytes a file can take', covers=['complete', 'refused']),
    J('read', 'c32.cpp', {'MODE': 5, 'N': 2}, {'MODE': 5, 'N': 3}, bounds='input, custom templates of up to N lines of 5 kinds and every template file of five formats, for every number of bytes of the file after which reading fails; to standard output or a file', covers=['complete', 'refused']),
    J('embed', 'c32.cpp', {'MODE': 6, 'N': 0}, prog='gtd', bounds='gen_templates_data: small template files, for every number of bytes after which reading one of them or writing the output fails', covers=['complete', 'refused']),
    J('info', 'c32.cpp', {'MODE': 4, 'N': 0}, bounds='-help, -full-help and -version, for every number of bytes standard output can take', covers=['complete', 'refused']),
    J('symbols', 'c32.cpp', {'MODE': 3, 'N': 0}, bounds='-print-symbols, for every number of bytes standard output can take', covers=['complete', 'refused']))
gen('C25',
    J('names', 'c25.cpp', {'MODE': 0, 'M': 3, 'LEN': 2}, {'MODE': 0, 'M': 3, 'LEN': 3}, bounds='up to M functions and objects with names of up to LEN symbolic characters, with and without -S', covers=['none', 'common']),
    J('long', 'c25.cpp', {'MODE': 1}, bounds='two or three long names, one cut or changed by an arbitrary identifier character at any position', covers=['none', 'common']))
gen('C26',
    J('library', 'c26.cpp', {'MODE': 0, 'N': 3}, {'MODE': 0, 'N': 4}, bounds='library names with N arbitrary bytes in 11 forms', covers=['rendered']),
    J('prefixes', 'c26.cpp', {'MODE': 1}, bounds='9 library names with one character of 20 inserted, replaced or one removed', covers=['rendered']),
    J('values', 'c26.cpp', {'MODE': 2, 'N': 3}, {'MODE': 2, 'N': 4}, bounds='includes and defines with N arbitrary bytes in 8 forms', covers=['rendered']),
    J('order', 'c26.cpp', {'MODE': 3, 'ND': 1}, {'MODE': 3, 'ND': 2}, bounds='up to ND defines and includes of 7 forms each with 6 libraries, command line and %option, C and C++', covers=['rendered']))
gen('C27',
    J('options', 'c27.cpp', {'TINY': 1, 'FMT': -1, 'NOUT': 2}, {'TINY': 1, 'FMT': -1, 'NOUT': 5}, bounds='small templates with symbolic characters; 5 formats x inputs x -param=skip x -separate x output names x -no-pragma-once x -no-date x -D, -include and -library x symbolic prefix', covers=['separate', 'assembled']),
    J('embedded', 'c27.cpp', {'TINY': 0, 'FMT': -1, 'NOUT': 1}, {'TINY': 0, 'FMT': -1, 'NOUT': 5}, bounds='the same options with the complete embedded templates, default prefix', covers=['separate', 'assembled']))
gen('C24',
    J('dump', 'c24.cpp', {'MODE': 0}, {'MODE': 0, 'FULL': 1}, bounds='the complete templates: 5 formats x inputs x -param=skip x -line x -separate, dumped to a new or existing directory; an edit at the beginning or end of any of the 12 files', covers=['same', 'edited', 'unused']),
    J('embed', 'c24.cpp', {'MODE': 1, 'N': 2, 'NS': 4}, {'MODE': 1, 'N': 3, 'NS': 5}, prog='gtd', bounds='gen_templates_data: files of N arbitrary bytes, within a line, and of up to NS pieces of @, line ends, %, quotes, backslashes', covers=['embedded']))

# ---- loader runtime: headers made by the generator of the current tree from small inputs
SETS = ['int foo(int a); void foobar(void); extern int foo_obj; extern char foo_arr[4];', 'int foo(int a); double bar(double x, char c); extern int *baz;', 'int f(void);', 'extern int ob1; extern char *ob2;',
        'int add(int a, int b); void put(char *dst, char c); double mix(double x, unsigned char y, const char *z, long w); long cb(int (*f)(int), int n);',
        'int vsum(int n, ...); int add(int a, int b);', 'small_t flip(struct small s); large_t blow(int k, struct large s);',
        'int add(int, int); void put(char *, char); double mix(double, unsigned char, const char *, long); long cb(int (*)(int), int);',
        'int fn(int a, char *b); void vf(pair_t p); extern int num; extern char *str; extern int arr[4]; extern pair_t st; extern pair_t *ps; extern char *names[2]; extern int grid[2][3];']
def header(fmt, st, *opts, out='gdo.h'):
    def prep(d):
        with open(d + '/in.txt', 'w') as f: f.write(SETS[st] + '\n')
        p = vlib.gen(['in.txt', '-format=' + fmt, '-out=' + out, '-force', '-no-date'] + list(opts), d)
        if p.returncode: raise vlib.BuildError('the generator failed: ' + p.stderr.decode('utf-8', 'replace')[:500])
    return prep
LIBOPT = '-library=libdef.so'
PX = ['-I' + os.path.join(vlib.V, 'harness', 'plat')]
def P(name, prop, plat, q, t=None, **kw): # the branches for other systems than Linux with glibc
    return C(name, prop, q, t, defs=['PLAT=%d' % plat], flags=PX, **kw)
def C(name, prop, q, t=None, st=0, opts=(), sep=False, defs=(), gnu=True, flags=(), **kw):
    q = dict(q, PROP=prop, SET=st); t = dict(t, PROP=prop, SET=st) if t is not None else None
    return J(name, 'capi.c', q, t, prep=header('c', st, LIBOPT, *(['-separate'] if sep else []), *opts), lang='c', kind='lib', defs=list(defs) + (['BODY'] if sep else []), flags=(['-D_GNU_SOURCE'] if gnu else []) + list(flags), **kw)
def W(name, prop, q, t=None, kind=1, wide=False, conv=False, **kw): # the Windows branch on a stand-in for the Windows API
    return C(name, prop, q, t, defs=['HX_WIN=%d' % kind] + (['_UNICODE'] if wide else []) + (['GDO_CONVERT_FILENAME'] if conv else []), flags=['-I' + os.path.join(vlib.V, 'harness', 'win')], **kw)
B1 = 'histories of K calls out of 12 operations, symbolic file names of up to SLEN bytes, flags, symbol numbers and names, every answer of the linker; '
B1W = 'Windows branch on a stand-in for the Windows API: histories of K calls out of 12 operations, symbolic names and numbers, every answer of the system; '
N = {'SLEN': 2, 'NLEN': 2}; N3 = {'SLEN': 3, 'NLEN': 4}; CV1 = ['again', 'empty', 'loaded', 'failed', 'nothing', 'released', 'notclosed', 'registered', 'path', 'exit']
lib('C01',
    C('calls', 1, dict(N, K=3), dict(N3, K=4), bounds=B1 + 'four symbols with a common prefix', covers=CV1),
    C('long', 1, dict(N, K=5, SLEN=1, OPS='1,5,6,7,8,11'), dict(N, K=7, SLEN=1, OPS='1,5,6,7,8,11'), st=2, bounds='histories of K calls: load by name, free, forced free, auto-release, symbols, path', covers=CV1),
    C('static', 1, dict(N, K=2), dict(N, K=3), st=1, defs=['GDO_STATIC', 'GDO_DEFAULT_FLAGS=0x102', 'FLAGS=0x102'], bounds=B1 + 'static linkage, other default flags', covers=['loaded']),
    C('separate', 1, dict(N, K=2), dict(N, K=3), st=1, sep=True, bounds=B1 + 'separate header and body', covers=['loaded']),
    W('winapi', 1, dict(N, K=2), dict(N, K=3), st=1, bounds=B1W + 'narrow characters', covers=['loaded', 'notclosed']),
    W('winwide', 1, dict(N, K=2), dict(N, K=3), st=2, wide=True, bounds=B1W + 'wide characters', covers=['loaded']),
    W('winconv', 1, dict(N, K=2), dict(N, K=3), st=2, conv=True, bounds=B1W + 'file names converted, conversions may fail', covers=['loaded', 'unconverted']),
    W('windlfcn', 1, dict(N, K=2), dict(N, K=3), st=1, kind=2, bounds=B1W + 'dlopen() on Windows', covers=['loaded']),
    W('widedlfcn', 1, dict(N, K=2, SLEN=1), dict(N, K=3), st=2, kind=2, wide=True, bounds=B1W + 'dlopen() on Windows, _UNICODE', covers=['loaded']),
    P('macos', 1, 1, dict(N, K=2), dict(N, K=3), st=2, bounds=B1 + 'macOS', covers=['loaded', 'path']),
    P('aix', 1, 3, dict(N, K=2), dict(N, K=3), st=2, bounds=B1 + 'AIX', covers=['loaded', 'path']),
    P('freebsd', 1, 4, dict(N, K=2), dict(N, K=3), st=2, bounds=B1 + 'FreeBSD', covers=['loaded', 'path']),
    C('nognu', 1, dict(N, K=2), dict(N, K=3), st=3, gnu=False, bounds=B1 + 'without _GNU_SOURCE', covers=['loaded']))
CV2 = ['all', 'notall', 'unknown', 'found', 'notfound']
lib('C02',
    C('prefix', 2, dict(N, K=2, NLEN=7), dict(N3, K=4, NLEN=8), bounds=B1 + 'four symbols with a common prefix, one name being the beginning of another', covers=CV2),
    C('noprefix', 2, dict(N, K=2, NLEN=3), dict(N3, K=4), st=1, bounds=B1 + 'three symbols without a common prefix', covers=CV2),
    C('one', 2, dict(N, K=3, NLEN=3), dict(N3, K=4), st=2, bounds=B1 + 'one symbol', covers=CV2),
    C('objects', 2, dict(N, K=3, NLEN=4), dict(N3, K=4), st=3, bounds=B1 + 'objects only', covers=CV2),
    W('winapi', 2, dict(N, K=2, NLEN=3), dict(N3, K=3), st=1, bounds=B1W + 'narrow characters', covers=CV2),
    W('winwide', 2, dict(N, K=2, NLEN=3), dict(N3, K=3), st=1, wide=True, bounds=B1W + 'wide characters', covers=CV2),
    C('symbols', 2, dict(N, K=4, SLEN=1, NLEN=3, OPS='1,5,6,8,9,10'), dict(N, K=5, SLEN=1, OPS='1,5,6,8,9,10'), st=3, bounds='histories of K calls: load by name, free, forced free, the three ways of loading symbols', covers=CV2))
CV3 = ['message', 'nomessage', 'number', 'name']
lib('C03',
    C('calls', 3, dict(N, K=2, BIG=0), dict(N3, K=3, BIG=0), bounds=B1 + 'linker messages of 2 arbitrary bytes, with format directives, or none', covers=CV3),
    C('long', 3, dict(N, K=4, SLEN=1, BIG=0, OPS='1,5,8,9'), dict(N, K=5, SLEN=1, BIG=0, OPS='1,5,8,9'), st=2, bounds='histories of K calls: load, free, load symbols', covers=CV3[:3]),
    W('winapi', 3, dict(N, K=2, BIG=0), dict(N, K=3, BIG=0), st=1, bounds=B1W + 'narrow characters', covers=CV3),
    W('winwide', 3, dict(N, K=2, BIG=0), dict(N, K=3, BIG=0), st=2, wide=True, bounds=B1W + 'wide characters', covers=CV3),
    W('winconv', 3, dict(N, K=2, BIG=0, OPS='1,2,5'), dict(N, K=3, BIG=0, OPS='1,2,5'), st=2, conv=True, bounds=B1W + 'file names converted, conversions may fail', covers=['message', 'unconverted']),
    W('windlfcn', 3, dict(N, K=2, BIG=0), dict(N, K=3, BIG=0), st=2, kind=2, bounds=B1W + 'dlopen() on Windows', covers=CV3[:3]),
    W('widedlfcn', 3, dict(N, K=2, BIG=0), dict(N, K=3, BIG=0), st=2, kind=2, wide=True, bounds=B1W + 'dlopen() on Windows, _UNICODE', covers=CV3[:3]),
    P('aix', 3, 3, dict(N, K=2, SLEN=1, BIG=0), dict(N, K=3, SLEN=1, BIG=0), st=2, bounds=B1 + 'AIX', covers=CV3[:3]),
    P('macos', 3, 1, dict(N, K=2, SLEN=1, BIG=0, OPS='1,5,8,9,11'), dict(N, K=3, SLEN=1, BIG=0, OPS='1,5,8,9,11'), st=2, bounds=B1 + 'macOS', covers=CV3[:3]),
    C('big', 3, dict(N, K=2, BIG=1, SLEN=1, OPS='1,5,8'), dict(N, K=3, BIG=1, SLEN=1, OPS='1,5,8'), st=2, bounds='linker messages of 8190 to 8193 bytes, two of them symbolic', covers=CV3[:2]))

def X(name, src, prop, q, t=None, st=0, hst=None, fmt='c', opts=(), lang='c', gnu=True, lb=True, flags=(), **kw):
    q = dict(q, PROP=prop, SET=st); t = dict(t, PROP=prop, SET=st) if t is not None else None
    return J(name, src, q, t, prep=header(fmt, st if hst is None else hst, *([LIBOPT] if lb else []), *opts), lang=lang, kind='lib', flags=(['-D_GNU_SOURCE'] if gnu else []) + list(flags), **kw)
PLATS = {1: 'macOS', 2: 'Android', 3: 'AIX', 4: 'FreeBSD', 5: 'another C library'}
WX = ['-I' + os.path.join(vlib.V, 'harness', 'win'), '-D_GLIBCXX_EXTERN_TEMPLATE=0']
B4W = 'Windows branch on a stand-in for the Windows API: histories of K calls (load, load symbols, free, forced free, query), GetModuleFileName() failing or answering with NB symbolic bytes'; CV4W = ['nothing', 'unknown', 'path']
B4 = 'one library, dlinfo() failing or answering with no name, an empty one or NB symbolic bytes, absolute or relative; an arbitrary 64 bit load address; /proc/self/maps missing or with three mappings, adjacent or not, 4 spellings of permissions, offset and device, paths of symbolic bytes or none; '
CV4 = ['absolute', 'relative', 'mapped', 'address', 'unknown']
lib('C04',
    X('sources', 'c04.c', 4, {'RICH': 1, 'BIG': 0}, {'RICH': 1, 'BIG': 0, 'NB': 4}, st=3, bounds=B4 + 'dladdr() of two symbols', covers=CV4),
    X('ioctl', 'c04.c', 4, {'RICH': 1, 'BIG': 0, 'IOCTL': 1}, {'RICH': 1, 'BIG': 0, 'IOCTL': 1, 'NB': 4}, st=2, bounds=B4 + 'PROCMAP_QUERY failing, empty or answering', covers=CV4),
    X('big', 'c04.c', 4, {'RICH': 1, 'BIG': 1, 'IOCTL': 1, 'NB': 1}, st=2, bounds=B4 + 'paths of 8190 to 8193 characters', covers=['absolute', 'relative', 'mapped', 'address', 'toolong']),
    X('history', 'c04.c', 4, {'RICH': 0, 'BIG': 0, 'K': 5}, {'RICH': 0, 'BIG': 0, 'K': 7}, st=2, bounds='histories of K calls: load, load symbols, free, forced free, query; every library has another symbolic path', covers=['absolute', 'nothing']),
    X('nognu', 'c04.c', 4, {'RICH': 1, 'BIG': 0, 'NB': 1}, st=2, gnu=False, bounds=B4 + 'without _GNU_SOURCE', covers=CV4),
    X('winapi', 'c04w.c', 4, {'K': 4, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, {'K': 6, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, st=2, flags=WX, bounds=B4W, covers=CV4W),
    X('winwide', 'c04w.c', 4, {'K': 3, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, {'K': 5, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, st=2, flags=WX + ['-D_UNICODE'], bounds=B4W + ', wide characters', covers=CV4W),
    X('winbig', 'c04w.c', 4, {'K': 2, 'NB': 1, 'BIG': 1, 'HX_WIN': 1}, {'K': 3, 'NB': 1, 'BIG': 1, 'HX_WIN': 1}, st=2, flags=WX, bounds=B4W + ', paths of 32766 to 32769 characters', covers=CV4W[1:]),
    X('cxxwin', 'c04w.cpp', 4, {'K': 3, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, {'K': 4, 'NB': 2, 'BIG': 0, 'HX_WIN': 1}, st=2, fmt='c++', lang='c++', flags=WX, bounds='C++: ' + B4W + ', two loader objects', covers=CV4W),
    X('cxxdlfcn', 'c04w.cpp', 4, {'K': 3, 'NB': 2, 'BIG': 0, 'HX_WIN': 2}, {'K': 4, 'NB': 2, 'BIG': 0, 'HX_WIN': 2}, st=2, fmt='c++', lang='c++', flags=WX, bounds='C++: ' + B4W + ', dlopen() on Windows', covers=CV4W),
    X('macos', 'c04.c', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 1, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 1, 'NB': 4}, st=3, flags=PX, bounds='macOS: dladdr() of two symbols', covers=['address', 'unknown']),
    X('freebsd', 'c04.c', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 4, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 4, 'NB': 4}, st=3, flags=PX, bounds='FreeBSD: dlinfo(), then dladdr() of two symbols', covers=['absolute', 'relative', 'address', 'unknown']),
    X('aix', 'c04.c', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 3, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 3, 'NB': 4}, st=3, flags=PX, bounds='AIX: loadquery() failing or reporting 1 or 2 entries with arbitrary sections, names and archive members', covers=['member', 'file', 'unknown', 'nosymbol']),
    X('aixbig', 'c04.c', 4, {'RICH': 1, 'BIG': 1, 'PLAT': 3, 'NB': 2, 'NE': 1}, {'RICH': 1, 'BIG': 1, 'PLAT': 3, 'NB': 1, 'NE': 1}, st=2, flags=PX, bounds='AIX: paths of 8186 to 8193 characters', covers=['member', 'file', 'toolong']),
    X('cxxmacos', 'c04.cpp', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 1, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 1, 'NB': 4}, st=3, fmt='c++', lang='c++', flags=PX, bounds='C++: macOS: dladdr() of two symbols', covers=['address', 'unknown']),
    X('cxxfreebsd', 'c04.cpp', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 4, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 4, 'NB': 4}, st=3, fmt='c++', lang='c++', flags=PX, bounds='C++: FreeBSD: dlinfo(), then dladdr() of two symbols', covers=['absolute', 'relative', 'address', 'unknown']),
    X('cxxaix', 'c04.cpp', 4, {'RICH': 1, 'BIG': 0, 'PLAT': 3, 'NB': 2}, {'RICH': 1, 'BIG': 0, 'PLAT': 3, 'NB': 4}, st=3, fmt='c++', lang='c++', flags=PX, bounds='C++: AIX: loadquery() failing or reporting 1 or 2 entries with arbitrary sections, names and archive members', covers=['member', 'file', 'unknown', 'nosymbol']),
    X('cxx', 'c04.cpp', 4, {'RICH': 1, 'BIG': 0}, {'RICH': 1, 'BIG': 0, 'NB': 4}, st=3, fmt='c++', lang='c++', bounds='C++: ' + B4 + 'dladdr() of two symbols', covers=CV4),
    X('cxxbig', 'c04.cpp', 4, {'RICH': 1, 'BIG': 1, 'IOCTL': 1, 'NB': 1}, st=2, fmt='c++', lang='c++', bounds='C++: PROCMAP_QUERY, paths of 8190 to 8193 characters', covers=['absolute', 'relative', 'mapped']),
    X('cxxhistory', 'c04.cpp', 4, {'RICH': 0, 'BIG': 0, 'K': 4}, {'RICH': 0, 'BIG': 0, 'K': 5}, st=2, fmt='c++', lang='c++', bounds='C++: histories of K calls on two loader objects', covers=['absolute', 'nothing']))
B6 = 'histories of K calls out of 12 operations on OBJS loader objects, every constructor, symbolic file names of up to SLEN bytes, flags, symbol numbers and names, every answer of the linker; '
M6 = {'SLEN': 2, 'NLEN': 2, 'ERR': 0, 'OBJS': 1, 'BIG': 0}
CV6 = ['again', 'empty', 'loaded', 'failed', 'nothing', 'released', 'notclosed', 'closed', 'kept', 'nolib']
def XX(name, prop, q, t=None, sep=False, flags=(), **kw): return X(name, 'cxxapi.cpp', prop, q, t, fmt='c++', lang='c++', opts=['-separate'] if sep else [], flags=(['-DBODY'] if sep else []) + list(flags), **kw)
B6W = 'Windows branch on a stand-in for the Windows API, narrow, wide and converted names, conversions may fail: histories of K calls; '
lib('C06',
    XX('calls', 6, dict(M6, K=3, START=1), dict(M6, K=4, START=1, SLEN=3), st=2, bounds=B6, covers=['again', 'empty', 'loaded', 'failed', 'nothing', 'released', 'notclosed', 'kept', 'closed', 'nolib']),
    XX('objects', 6, dict(M6, K=4, OBJS=2, SLEN=1, OPS='0,1,3,5,7'), dict(M6, K=6, OBJS=2, SLEN=1, OPS='0,1,3,5,7'), st=2, bounds=B6 + 'two objects: construction, destruction, load, free', covers=['loaded', 'closed', 'nolib']),
    XX('long', 6, dict(M6, K=5, SLEN=1, START=1, OPS='1,3,5,6,7,8'), dict(M6, K=6, SLEN=1, START=1, OPS='1,3,5,6,7,8'), st=2, bounds=B6, covers=['again', 'loaded', 'failed', 'released', 'notclosed', 'closed', 'kept']),
    XX('winapi', 6, dict(M6, K=2, SLEN=1, START=1, HX_WIN=1), dict(M6, K=3, SLEN=2, START=1, HX_WIN=1), st=2, flags=WX, bounds=B6W, covers=['loaded', 'unconverted', 'closed']),
    XX('windlfcn', 6, dict(M6, K=2, SLEN=1, START=1, HX_WIN=2), dict(M6, K=3, SLEN=2, START=1, HX_WIN=2), st=2, flags=WX, bounds=B6 + 'dlopen() on Windows', covers=['loaded', 'closed']),
    XX('macos', 6, dict(M6, K=2, START=1, PLAT=1), dict(M6, K=3, START=1, PLAT=1), st=2, flags=PX, bounds=B6 + 'macOS', covers=['loaded', 'closed']),
    XX('aix', 6, dict(M6, K=2, START=1, PLAT=3), dict(M6, K=3, START=1, PLAT=3), st=2, flags=PX, bounds=B6 + 'AIX', covers=['loaded', 'closed']),
    XX('separate', 6, dict(M6, K=2, START=1, FLAGS='0x102', GDO_DEFAULT_FLAGS='0x102'), dict(M6, K=3, START=1, FLAGS='0x102', GDO_DEFAULT_FLAGS='0x102'), st=1, sep=True, bounds=B6 + 'separate files, other default flags', covers=['loaded']))
lib('C07',
    XX('prefix', 7, dict(M6, K=2, NLEN=7, START=1), dict(M6, K=3, NLEN=8, START=1), st=0, bounds=B6 + 'four symbols with a common prefix', covers=['unknown']),
    XX('symbols', 7, dict(M6, K=4, SLEN=1, NLEN=3, START=1, OPS='3,5,6,8,9,10'), dict(M6, K=5, SLEN=1, START=1, OPS='3,5,6,8,9,10'), st=3, bounds=B6 + 'load, free, the three ways of loading symbols', covers=CV2),
    XX('noprefix', 7, dict(M6, K=3, SLEN=1, NLEN=3, START=1, OPS='4,8,9,10'), dict(M6, K=4, SLEN=1, START=1, OPS='3,5,8,9,10'), st=1, bounds=B6 + 'three symbols without a common prefix', covers=CV2),
    XX('errors', 7, dict(M6, K=3, ERR=1, SLEN=1, START=1, OPS='2,3,5,8,9,10,11'), dict(M6, K=4, ERR=1, SLEN=1, START=1, OPS='2,3,5,8,9,10,11'), st=2, bounds=B6 + 'linker messages of 2 arbitrary bytes, with format directives, or none', covers=CV3),
    XX('winapi', 7, dict(M6, K=2, SLEN=1, NLEN=2, START=1, HX_WIN=1, OPS='3,4,5,8,9,10'), dict(M6, K=3, SLEN=1, START=1, HX_WIN=1, OPS='3,4,5,8,9,10'), st=2, flags=WX, bounds=B6W, covers=CV2),
    XX('winerrors', 7, dict(M6, K=2, ERR=1, SLEN=1, START=1, HX_WIN=1, OPS='2,3,5,8,9,10,11'), dict(M6, K=3, ERR=1, SLEN=1, START=1, HX_WIN=1, OPS='2,3,5,8,9,10,11'), st=2, flags=WX, bounds=B6W + 'arbitrary system messages, or none', covers=CV3 + ['unconverted']),
    XX('aix', 7, dict(M6, K=2, ERR=1, SLEN=1, START=1, PLAT=3, OPS='2,3,5,8,9,10,11'), dict(M6, K=3, ERR=1, SLEN=1, START=1, PLAT=3, OPS='2,3,5,8,9,10,11'), st=2, flags=PX, bounds=B6 + 'AIX', covers=CV3[:2]),
    XX('big', 7, dict(M6, K=2, ERR=1, BIG=1, SLEN=1, START=1, OPS='3,5,8'), dict(M6, K=3, ERR=1, BIG=1, SLEN=1, START=1, OPS='3,5,8'), st=2, bounds='linker messages of 8191 and 8192 bytes, two of them symbolic', covers=['message']))

B5 = 'histories of K calls (wrapper functions with 32 arbitrary bytes of arguments and 8 of results, load, load symbols, free), every answer of the linker; '
def WR(name, prop, q, t=None, st=4, mode='', sep=False, opts=(), d=(), win=0, **kw):
    cpp = prop == 8; fl = {'': ['-DGDO_WRAP_FUNCTIONS'], 'auto': ['-DGDO_ENABLE_AUTOLOAD', '-DAUTO'], 'lazy': ['-DGDO_ENABLE_AUTOLOAD_LAZY', '-DAUTO', '-DLAZY']}[mode] + ['-DBODY'] * sep + list(d) + (WX + ['-DHX_WIN=%d' % win] if win else [])
    return X(name, 'c05.cpp' if cpp else 'c05.c', prop, q, t, st=st, fmt='c++' if cpp else 'c', lang='c++' if cpp else 'c', opts=['-separate'] * sep + list(opts), flags=fl, **kw)
CA, CB = ['direct', 'autoloaded', 'exited'], ['direct', 'aborted']
for P in (5, 8):
    lib('C%02d' % P,
        WR('wrap', P, {'K': 4}, {'K': 5}, covers=CB, bounds=B5 + 'wrappers without auto-loading'),
        WR('auto', P, {'K': 3}, {'K': 4}, mode='auto', covers=CA, bounds=B5 + 'auto-loading'),
        WR('lazy', P, {'K': 3}, {'K': 4}, mode='lazy', covers=CA, bounds=B5 + 'lazy auto-loading'),
        WR('hooks', P, {'K': 3}, {'K': 3}, mode='lazy', d=['-DHOOKS'], covers=CA, bounds=B5 + 'hooks'),
        WR('separate', P, {'K': 2}, {'K': 3}, mode='auto', sep=True, covers=CA[1:], bounds=B5 + 'separate files'),
        WR('create', P, {'K': 2}, {'K': 3}, mode='auto', hst=7, opts=['-param=create'], d=['-DHOOKS'], covers=CA[1:], bounds=B5 + 'parameter names made up'),
        WR('visible', P, {'K': 2}, {'K': 3}, mode='auto', d=['-DVIS'], covers=CA[1:], bounds=B5 + 'visible wrappers'),
        WR('winapi', P, {'K': 2}, {'K': 3}, mode='lazy', win=1, covers=CA[1:], bounds=B5 + 'Windows branch on a stand-in for the Windows API'),
        WR('winbox', P, {'K': 2}, {'K': 3}, mode='auto', win=1, d=['-DGDO_USE_MESSAGE_BOX', '-D_UNICODE'], covers=CA[1:], bounds=B5 + 'the same, wide characters, message boxes'),
        WR('winwrap', P, {'K': 2}, {'K': 3}, win=2, covers=CB[1:], bounds=B5 + 'dlopen() on Windows, no auto-loading'),
        WR('widewrap', P, {'K': 2}, {'K': 3}, win=2, mode='auto', d=['-D_UNICODE'], covers=CA[1:], bounds=B5 + 'dlopen() on Windows, _UNICODE'),
        WR('dlbox', P, {'K': 2}, {'K': 3}, win=2, mode='lazy', d=['-DGDO_USE_MESSAGE_BOX'], covers=CA[1:], bounds=B5 + 'dlopen() on Windows, message boxes'),
        WR('widebox', P, {'K': 2}, {'K': 3}, win=2, mode='auto', d=['-DGDO_USE_MESSAGE_BOX', '-D_UNICODE'], covers=CA[1:], bounds=B5 + 'dlopen() on Windows, _UNICODE, message boxes'),
        WR('percent', P, {'K': 2}, {'K': 3}, mode='auto', lb=False, opts=['-library=lib%s%d.so'], d=['-DLIB="lib%s%d.so"'], covers=CA[1:], bounds=B5 + 'a library name with format directives'),
        WR('variadic', P, {'K': 2}, {'K': 3}, st=5, mode='lazy', covers=CA[1:], bounds=B5 + 'a function with variable arguments'),
        *([WR('packed', P, {'K': 2}, {'K': 3}, st=5, mode='lazy', d=['-DPACK'], covers=CA[1:], bounds=B5 + 'a function with variable arguments, GNU inline wrapper')] if P == 5 else []),
        WR('struct', P, {'K': 2}, {'K': 3}, st=6, mode='auto', opts=['-include=types.h'], covers=CA[1:], bounds=B5 + 'structures as arguments and results'),
        *([WR('static', P, {'K': 2}, {'K': 3}, mode='auto', d=['-DGDO_STATIC'], covers=CA[1:], bounds=B5 + 'static linkage')] if P == 5 else []))

B9 = 'histories of K load and free calls, null, empty or symbolic file names of SLEN bytes, every answer of the linker; '
C9 = ['invalid', 'noopen', 'nosymbol', 'loaded', 'reload', 'released', 'nothing']
def MI(name, prop, q, t=None, st=0, d=(), lang=None, **kw): return X(name, 'minimal.c', prop, q, t, st=st, fmt='minimal' if prop == 9 else 'minimal-c++', lb=False, lang=lang or ('c' if prop == 9 else 'c++'), flags=list(d) + (['-DMCXX'] if prop == 10 else []), covers=C9, **kw)
for P in (9, 10):
    lib('C%02d' % P,
        MI('calls', P, {'K': 3, 'SLEN': 4}, {'K': 4, 'SLEN': 8}, bounds=B9 + 'two functions and two objects'),
        MI('one', P, {'K': 5, 'SLEN': 1}, {'K': 6, 'SLEN': 2}, st=2, bounds=B9 + 'one function'),
        MI('objects', P, {'K': 4, 'SLEN': 1}, {'K': 6, 'SLEN': 1}, st=3, bounds=B9 + 'objects only'),
        MI('winapi', P, {'K': 3, 'SLEN': 2}, {'K': 4, 'SLEN': 3}, st=1, d=WX + ['-DHX_WIN=1'], bounds=B9 + 'three symbols, Windows branch on a stand-in for the Windows API'),
        MI('aix', P, {'K': 3, 'SLEN': 2, 'PLAT': 3}, {'K': 4, 'SLEN': 3, 'PLAT': 3}, st=2, d=PX, bounds=B9 + 'AIX'),
        MI('noalias', P, {'K': 2, 'SLEN': 2}, {'K': 3, 'SLEN': 2}, st=1, d=['-DGDO_DISABLE_ALIASING'], bounds=B9 + 'three symbols, no aliases'),
        MI('static', P, {'K': 2, 'SLEN': 2}, {'K': 3, 'SLEN': 2}, st=1, d=['-DGDO_STATIC'], bounds=B9 + 'three symbols, static linkage'),
        *([MI('cxx', P, {'K': 2, 'SLEN': 2}, {'K': 3, 'SLEN': 2}, st=1, lang='c++', bounds=B9 + 'three symbols, compiled as C++')] if P == 9 else []))

B11 = 'lists of 0 to MAXN entries (or no list), each name null, empty or SLEN symbolic bytes, every answer of the linker; '
C11 = ['none', 'noname', 'noopen', 'nosymbol', 'loaded']
def PL(name, q, t=None, st=0, sep=False, d=(), lang='c', covers=None, **kw): return X(name, 'plugin.c', 11, q, t, st=st, fmt='plugin', lb=False, lang=lang, opts=['-separate'] if sep else [], flags=list(d) + (['-DBODY'] if sep else []), covers=covers or C11, **kw)
lib('C01', *[X('oom' + n, 'oom.c', 1, {'K': 2, 'SLEN': 3, 'HX_WIN': 1}, {'K': 3, 'SLEN': 3, 'HX_WIN': 1}, st=2, flags=WX + d, bounds='Windows: histories of K calls (load with names of up to SLEN characters, free, forced free), any of the allocations of the generated code may fail' + w, covers=['loaded', 'refused', 'freed'] + c) for n, d, w, c in (('', [], '', ['nomemory']), ('wide', ['-D_UNICODE'], ', wide characters', ['nomemory']), ('conv', ['-DGDO_CONVERT_FILENAME'], ', converted file names', ['nomemory']))])
lib('C11',
    PL('list', {'MAXN': 2, 'SLEN': 6}, {'MAXN': 3, 'SLEN': 6}, bounds=B11 + 'two functions and two objects'),
    PL('long', {'MAXN': 4, 'SLEN': 2}, {'MAXN': 5, 'SLEN': 2}, st=2, bounds=B11 + 'one function'),
    PL('objects', {'MAXN': 3, 'SLEN': 2}, {'MAXN': 4, 'SLEN': 2}, st=3, bounds=B11 + 'objects only'),
    PL('separate', {'MAXN': 2, 'SLEN': 2}, {'MAXN': 3, 'SLEN': 2}, st=1, sep=True, bounds=B11 + 'separate files'),
    PL('winapi', {'MAXN': 2, 'SLEN': 2}, {'MAXN': 3, 'SLEN': 2}, st=1, d=WX + ['-DHX_WIN=1'], bounds=B11 + 'Windows branch on a stand-in for the Windows API'),
    PL('winwide', {'MAXN': 2, 'SLEN': 2}, {'MAXN': 3, 'SLEN': 2}, st=2, d=WX + ['-DHX_WIN=1', '-D_UNICODE'], bounds=B11 + 'the same with wide characters'),
    PL('aix', {'MAXN': 2, 'SLEN': 2, 'PLAT': 3}, {'MAXN': 3, 'SLEN': 2, 'PLAT': 3}, st=2, d=PX, bounds=B11 + 'AIX'),
    PL('static', {'MAXN': 2, 'SLEN': 2}, {'MAXN': 3, 'SLEN': 2}, st=1, d=['-DGDO_STATIC', '-DGDO_DEFAULT_FLAGS=0x102', '-DFLAGS=0x102'], bounds=B11 + 'static linkage, other default flags'),
    PL('oom', {'MAXN': 2, 'SLEN': 2, 'OOM': 1}, {'MAXN': 3, 'SLEN': 2, 'OOM': 1}, st=2, covers=C11 + ['nomemory', 'nocopy'], bounds=B11 + 'any of the allocations may fail'),
    PL('cxx', {'MAXN': 2, 'SLEN': 2}, {'MAXN': 3, 'SLEN': 2}, st=1, lang='c++', bounds=B11 + 'compiled as C++'))

B28 = 'names of 0 to NL arbitrary bytes, numbers of AB arbitrary bytes (below AMAX), macros on five names: '
def NA(name, fmt, cpp, what, d=(), make=False, t=True, **kw):
    q = {'NL': 4, 'AB': 8}; tt = {'NL': 10, 'AB': 8}
    if make == 2: q = {'NL': 1, 'AB': 1, 'DIGITS': 1}; tt = {'NL': 1, 'AB': 2, 'DIGITS': 1, 'AMAX': 2000}
    cv = ['macro', 'wide'] + (['made'] if make else []) + (['agree'] if make == 2 else [])
    return X(name, 'names.cpp' if cpp else 'names.c', 28, q, tt if t else None, st=2, fmt=fmt, lang='c++' if cpp else 'c', lb=fmt in ('c', 'c++'), flags=list(d) + (['-DMAKE'] if make else []), bounds=B28 + what, covers=cv, **kw)
W1, MS = WX + ['-DHX_WIN=1'], WX + ['-DHX_WIN=1', '-DHX_MSVC']
lib('C28',
    NA('linux', 'c++', True, 'Linux', make=True),
    NA('macos', 'c++', True, 'macOS', d=PX + ['-DPLAT=1'], make=True),
    NA('android', 'c++', True, 'Android', d=PX + ['-DPLAT=2'], make=True),
    NA('aix', 'c++', True, 'AIX', d=PX + ['-DPLAT=3'], make=True),
    NA('freebsd', 'c++', True, 'FreeBSD', d=PX + ['-DPLAT=4'], make=True),
    NA('mingw', 'c++', True, 'Windows, MinGW', d=W1, make=True),
    NA('msvc', 'c++', True, 'Windows, other compilers', d=MS, make=True),
    NA('mswide', 'c++', True, 'Windows, other compilers, wide characters', d=MS + ['-D_UNICODE'], make=True),
    NA('windlfcn', 'c++', True, 'Windows, dlopen()', d=WX + ['-DHX_WIN=2'], make=True),
    NA('digits', 'c++', True, 'Linux, with the numbers spelled out', make=2), NA('windigits', 'c++', True, 'Windows, with the numbers spelled out', d=MS, make=2),
    NA('unicode', 'c++', True, 'Linux, _UNICODE defined', d=['-D_UNICODE'], make=True, t=False), NA('cunicode', 'c', False, 'C: Linux, _UNICODE defined', d=['-D_UNICODE'], t=False),
    NA('c', 'c', False, 'C: Linux', t=False), NA('cmacos', 'c', False, 'C: macOS', d=PX + ['-DPLAT=1'], t=False), NA('caix', 'c', False, 'C: AIX', d=PX + ['-DPLAT=3'], t=False),
    NA('candroid', 'c', False, 'C: Android', d=PX + ['-DPLAT=2'], t=False), NA('cmingw', 'c', False, 'C: MinGW', d=W1, t=False), NA('cwide', 'c', False, 'C: Windows, wide characters', d=MS + ['-D_UNICODE'], t=False),
    NA('minimal', 'minimal', False, 'minimal C', t=False), NA('minimalcxx', 'minimal-c++', True, 'minimal C++', t=False), NA('plugin', 'plugin', False, 'plugin loader', t=False))

B29 = 'histories of K steps: the next library, or one of nine ways of using the names with arbitrary 32 bit values and indices: '
C29 = ['next', 'call', 'int', 'array', 'struct', 'grid']
FM = {0: 'c', 1: 'c++', 2: 'minimal', 3: 'minimal-c++'}
def AL(name, fmt, what, q=3, t=4, d=(), sep=False, lang=None, opts=(), **kw):
    l = lang or ('c' if fmt in (0, 2) else 'c++'); kw['probe'] = '' if '-DNOALIAS' in d else 'static int q_; void use_(void){ pair_t t_=st; int(*f_)(int,char*)=fn; q_=f_(fn(1,(char*)0),str); vf(t_); num=1; num++; arr[1]=2; st.a=1; ps->a=2; names[0][1]=names[1][0]; grid[1][2]=3; str++; q_=*str+sizeof arr; }'
    return X(name, 'alias.cpp' if l == 'c++' else 'alias.c', 29, {'K': q, 'FMT': fmt}, {'K': t, 'FMT': fmt}, st=8, fmt=FM[fmt], lang=l, lb=fmt < 2, opts=['-include=types2.h'] + ['-separate'] * sep + list(opts), flags=list(d) + ['-DHPP'] * (sep and fmt == 1), extra=['gdo.c' if fmt == 0 else 'gdo.cpp'] if sep else [], covers=C29, bounds=B29 + what, **kw)
WF, AU, AZ = ['-DGDO_WRAP_FUNCTIONS'], ['-DGDO_ENABLE_AUTOLOAD', '-DAUTO'], ['-DGDO_ENABLE_AUTOLOAD_LAZY', '-DAUTO']
NOA = ['-DGDO_DISABLE_ALIASING', '-DNOALIAS']; VIS = ['-DGDO_WRAP_VISIBILITY=__attribute__((visibility("default")))']
lib('C29',
    AL('c', 0, 'C'), AL('cwrap', 0, 'C, wrapper functions', 2, 3, d=WF), AL('cauto', 0, 'C, auto-loading', 2, 3, d=AU), AL('cseparate', 0, 'C, separate body', 2, 3, sep=True), AL('cseparatewrap', 0, 'C, separate body, wrapper functions', 2, 3, d=WF, sep=True),
    AL('cseparateauto', 0, 'C, separate body, auto-loading', 2, 3, d=AU, sep=True), AL('clazy', 0, 'C, lazy auto-loading', 2, 3, d=AZ[:1]), AL('cvisible', 0, 'C, visible wrapper functions', 2, 3, d=WF + VIS), AL('cfree', 0, 'C, no aliases', 2, 3, d=NOA), AL('cstatic', 0, 'C, static linkage', 2, 3, d=['-DGDO_STATIC']),
    AL('cxx', 1, 'C++'), AL('cxxwrap', 1, 'C++, wrapper functions', 2, 3, d=WF), AL('cxxauto', 1, 'C++, auto-loading', 2, 3, d=AU), AL('cxxseparate', 1, 'C++, separate body', 2, 3, sep=True), AL('cxxseparatewrap', 1, 'C++, separate body, wrapper functions', 2, 3, d=WF, sep=True),
    AL('cxxseparateauto', 1, 'C++, separate body, auto-loading', 2, 3, d=AU, sep=True), AL('cxxvisible', 1, 'C++, visible wrapper functions', 2, 3, d=WF + VIS), AL('cxxfree', 1, 'C++, no aliases', 2, 3, d=NOA),
    AL('minimal', 2, 'minimal C'), AL('minimalfree', 2, 'minimal C, no aliases', 2, 3, d=NOA), AL('minimalstatic', 2, 'minimal C, static linkage, as C++', 2, 3, d=['-DGDO_STATIC'], lang='c++'),
    AL('minimalcxx', 3, 'minimal C++'), AL('minimalcxxfree', 3, 'minimal C++, no aliases', 2, 3, d=NOA))

MS2 = ['int foo(int a); extern int one;', 'int uno(int a);', 'int foo(int a); int uno(int a);']
B30 = 'histories of K calls on two loaders with different prefixes, symbolic names, every answer of the linker: '
def MU(name, fa, fb, what, shared=1, q=3, t=4, d=(), lang=None, covers=('first', 'second'), sep=False, guard=False, arr=False, **kw):
    def prep(dd):
        if guard: os.mkdir(dd + '/x'); os.mkdir(dd + '/y')
        for fmt, pf, out, sy, lb in ((fa, 'aa', 'x/gdo.h' if guard else 'a.h', MS2[0], 'liba.so'), (fb, 'bb', 'y/gdo.h' if guard else 'b.h', MS2[2 if shared else 1], 'libb.so')):
            with open(dd + '/in.txt', 'w') as f: f.write(sy + ('extern %s arr[%d];' % (('int', 4) if pf == 'aa' else ('char', 2)) if arr else '') + '\n')
            p = vlib.gen(['in.txt', '-format=' + FM4[fmt], '-prefix=' + pf, '-out=' + out, '-force', '-no-date'] + (['-library=' + lb] if fmt < 2 else []) + ['-separate'] * sep + ['-no-pragma-once'] * guard, dd)
            if p.returncode: raise vlib.BuildError('the generator failed: ' + p.stderr.decode('utf-8', 'replace')[:500])
    l = lang or ('c' if fa in (0, 2, 4) and fb in (0, 2, 4) else 'c++')
    HS = ['x/gdo.h', 'y/gdo.h'] if guard else [x + ('.hpp' if sep and f in (1,) else '.h') for x, f in (('a', fa), ('b', fb))]; EX = [x + ('.cpp' if f == 1 else '.c') for x, f in (('a', fa), ('b', fb)) if f in (0, 1, 4)] if sep else []
    return J(name, 'multi.cpp' if l == 'c++' else 'multi.c', {'K': q, 'FA': fa, 'FB': fb, 'SHARED': shared}, {'K': t, 'FA': fa, 'FB': fb, 'SHARED': shared}, prep=prep, lang=l, kind='lib', headers=HS, extra=EX, flags=['-D_GNU_SOURCE'] + (['-DAA_DISABLE_ALIASING', '-DBB_DISABLE_ALIASING'] if shared else []) + ['-DARR'] * arr + ['-DHA="%s"' % HS[0], '-DHB="%s"' % HS[1]] + list(d), covers=list(covers), bounds=B30 + what, probe=''.join(api(['c', 'x', 'm', 'mx', 'p'][f], pf) + '\n' for f, pf in ((fa, 'aa'), (fb, 'bb'))), **kw)
FM4 = {**FM, 4: 'plugin'}; CS = ['-DCLOSES=1']; AUA = ['-DAUTO', '-DAA_ENABLE_AUTOLOAD', '-DBB_ENABLE_AUTOLOAD_LAZY', '-DHX_SNPRINTF']
CM = ('first', 'second', 'both')
lib('C30',
    MU('c', 0, 0, 'C, one symbol in both', covers=CM), MU('calias', 0, 0, 'C, aliases', shared=0, d=CS, covers=CM + ('exit',)), MU('cauto', 0, 0, 'C, auto-loading', d=CS + AUA, q=2, t=3, covers=('first', 'second', 'call', 'left')),
    MU('cxx', 1, 1, 'C++, one symbol in both', covers=CM), MU('cxxalias', 1, 1, 'C++, aliases', shared=0, d=CS, covers=CM), MU('cxxauto', 1, 1, 'C++, auto-loading', d=CS + AUA, q=2, t=3, covers=('first', 'second', 'call', 'left')),
    MU('minimal', 2, 2, 'minimal C'), MU('minimalcxx', 3, 3, 'minimal C++'), MU('plugin', 4, 4, 'plugin loader', q=2, t=3),
    MU('cseparate', 0, 0, 'C, separate bodies', sep=True, covers=CM), MU('cxxseparate', 1, 1, 'C++, separate bodies', sep=True, covers=CM), MU('cguards', 0, 2, 'C and minimal C, files of the same name, no #pragma once', q=2, t=3, guard=True), MU('pluginseparate', 4, 0, 'plugin loader and C, separate bodies', q=2, t=3, sep=True), MU('cxxguards', 1, 3, 'C++ and minimal C++, files of the same name, no #pragma once', q=2, t=3, guard=True), MU('arrays', 0, 2, 'C and minimal C, arrays of the same name and different types', q=2, t=3, arr=True), MU('cxxarrays', 1, 3, 'C++ and minimal C++, arrays of the same name and different types', q=2, t=3, arr=True), MU('ccxx', 0, 1, 'C and C++'), MU('cminimal', 0, 2, 'C and minimal C'), MU('cxxplugin', 1, 4, 'C++ and plugin loader'), MU('minimals', 2, 3, 'minimal C and minimal C++', q=4, t=5))

BF = 'any combination of the 31 flag names of both systems (a symbolic mask), three ways of loading; '
def FL(name, l, what, d=(), win=0, **kw): return X(name, 'flags.cpp' if l == 'c++' else 'flags.c', 6 if l == 'c++' else 1, {'K': 1}, {'K': 1}, st=2, fmt=l, lang=l, flags=list(d) + (WX + ['-DHX_WIN=%d' % win] if win else []), covers=['loaded', 'failed'], bounds=BF + what)
for P, l in ((1, 'c'), (6, 'c++')):
    lib('C%02d' % P, FL('flags', l, 'Linux'), FL('someflags', l, 'a system that knows others', ['-DSOME']), FL('ownflags', l, 'default flags of the user', ['-DGDO_DEFAULT_FLAGS=0x1002', '-DDEF=0x1002']), FL('winflags', l, 'Windows', ['-DSOME'], win=1))
B31 = 'histories of K uses of the default library, names of SLEN arbitrary bytes given by the user, every answer of the linker: '
def DL(name, l, cfg, what, mode='', win=0, wide=False, sep=False, t=3, covers=None):
    cpp = l == 'c++'; cf = cfg.split(); opt = ['-library=libdef.so'] if 'OPT' in cf else []; auto = ['-DAUTO', '-DGDO_ENABLE_AUTOLOAD'] if mode else []
    fl = ['-D' + c for c in cf] + auto + ['-DBODY'] * sep + (WX + ['-DHX_WIN=%d' % win] + ['-D_UNICODE'] * wide if win else [])
    cv = covers if covers is not None else ['called', 'exited'] if mode else ['loaded', 'failed', 'empty'] if len(cf) > 1 or cf[0] != 'OPT' else ['loaded', 'failed']
    return X(name, 'c31.cpp' if cpp else 'c31.c', 31, {'K': 2, 'SLEN': 3}, {'K': t, 'SLEN': 8}, st=2, fmt=l, lang=l, lb=False, opts=opt + ['-separate'] * sep, flags=fl, covers=cv, bounds=B31 + what)
NO, HD = ['none'], ['loaded', 'failed']
lib('C31', *[j for l, p in (('c', ''), ('c++', 'x')) for j in (
    DL(p + 'option', l, 'OPT', '-library'), DL(p + 'user', l, 'ULIB', 'GDO_DEFAULT_LIB'), DL(p + 'override', l, 'ULIB OPT', 'GDO_DEFAULT_LIB and -library'), DL(p + 'narrow', l, 'ULIBA OPT', 'GDO_DEFAULT_LIBA and -library'),
    DL(p + 'both', l, 'ULIB ULIBA', 'GDO_DEFAULT_LIB and GDO_DEFAULT_LIBA'), DL(p + 'other', l, 'ULIBW OPT', 'GDO_DEFAULT_LIBW, of no use here, and -library', covers=HD), DL(p + 'none', l, 'ULIBW', 'GDO_DEFAULT_LIBW only', covers=NO),
    DL(p + 'wnarrow', l, 'ULIBA ULIBW OPT', 'Windows', win=1), DL(p + 'wwide', l, 'ULIBA ULIBW OPT', 'Windows, wide characters', win=1, wide=True), DL(p + 'wuser', l, 'ULIB OPT', 'Windows, wide characters, GDO_DEFAULT_LIB', win=1, wide=True),
    DL(p + 'woption', l, 'ULIBA OPT', 'Windows, wide characters, GDO_DEFAULT_LIBA, of no use here', win=1, wide=True, covers=HD), DL(p + 'wdlfcn', l, 'ULIBA ULIBW', 'Windows, dlopen()', win=2), DL(p + 'widedlfcn', l, 'ULIBA ULIBW', 'Windows, dlopen(), _UNICODE', win=2, wide=True), DL(p + 'autodlfcn', l, 'ULIBA OPT', 'auto-loading, Windows, dlopen(), _UNICODE', mode='auto', win=2, wide=True),
    DL(p + 'auto', l, 'ULIB OPT', 'auto-loading', mode='auto'), DL(p + 'autonarrow', l, 'ULIBA OPT', 'auto-loading, GDO_DEFAULT_LIBA', mode='auto'), DL(p + 'autowide', l, 'ULIBW OPT', 'auto-loading, Windows, wide characters', mode='auto', win=1, wide=True),
    DL(p + 'separate', l, 'ULIB OPT', 'separate files', sep=True))])
