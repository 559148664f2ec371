// Native back end: replays recorded values against the real program (ASan build) in the current (scratch) directory.
#include "h.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>
struct Draw { std::string name; std::string val; };
static std::vector<Draw> draws; static size_t di; static FILE *obsf; static bool sawCrash;
[[noreturn]] static void finish(int code, const char *why, const char *msg){ printf("%s %s\n", why, msg); fflush(stdout); if (obsf) fclose(obsf); _exit(code); }
static Draw &next(const char *name, size_t n){ if (di >= draws.size()) finish(77, "DIVERGED", "more values wanted than recorded"); Draw &d = draws[di++]; if (d.name != name || d.val.size() != n) { char b[300]; snprintf(b, sizeof b, "value %zu is %s/%zu, wanted %s/%zu", di - 1, d.name.c_str(), d.val.size(), name, n); finish(77, "DIVERGED", b); } return d; }
extern "C" {
void sym_bytes(void *p, size_t n, const char *name){ Draw &d = next(name, n); memcpy(p, d.val.data(), n); }
void sym_set(void *p, size_t n, const char *set, size_t l, const char *name){ Draw &d = next(name, n); for (char c : d.val) if (!memchr(set, c, l)) finish(77, "DIVERGED", "value outside of its set"); memcpy(p, d.val.data(), n); }
unsigned sym_range(unsigned lo, unsigned hi, const char *name){ Draw &d = next(name, 1); return lo + (unsigned char)d.val[0]; }
unsigned sym_choice(unsigned n, const char *name){ Draw &d = next(name, 1); return (unsigned char)d.val[0]; }
void sym_assume(int c){ if (!c) finish(77, "DIVERGED", "assumption does not hold"); }
void sym_assert(int c, const char *m){ if (!c) finish(1, "ASSERT", m); }
void sym_assert_eq_mem(const void *a, const void *b, size_t n, const char *m){ if (memcmp(a, b, n)) { fprintf(stderr, "got:  [%.*s]\nwant: [%.*s]\n", (int)n, (const char *)a, (int)n, (const char *)b); finish(1, "ASSERT", m); } }
void sym_fail(const char *m){ finish(1, "ASSERT", m); }
void sym_cover(const char *){}
void sym_observe(const char *l, const void *p, size_t n){ if (!obsf) return; fprintf(obsf, "%s ", l); for (size_t i = 0; i < n; i++) fprintf(obsf, "%02x", ((const unsigned char *)p)[i]); fputc('\n', obsf); fflush(obsf); }
unsigned long sym_concrete(unsigned long v){ return v; }
int sym_is_symbolic(unsigned long){ return 0; }
void sym_prune(void){ finish(77, "DIVERGED", "pruned path"); }
void sym_limit(unsigned long){}
unsigned long sym_ninstr(void){ return 0; }
size_t __sanitizer_get_current_allocated_bytes(void);
unsigned sym_heap_live(void){ return __sanitizer_get_current_allocated_bytes(); }
void sym_print(const void *p, size_t n){ fwrite(p, 1, n, stderr); fputc('\n', stderr); }
}
#ifndef NO_H_RUN
static void parents(const std::string &p){ for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); }
static void safe(const char *p){ if (p[0] == '/' || strstr(p, "..")) finish(78, "HARNESS", "path outside of the scratch directory"); }
void h_file(const char *p, const std::string &d){ safe(p); FILE *f = fopen(p, "wb"); if (!f) finish(78, "HARNESS", p); fwrite(d.data(), 1, d.size(), f); fclose(f); }
void h_dir(const char *p){ safe(p); mkdir(p, 0777); }
void h_link(const char *p, const char *t){ safe(p); unlink(p); if (symlink(t, p)) finish(78, "HARNESS", p); }
static std::string rdp; static long rdl = -1;
void h_read_limit(const char *p, long n){ rdp = p; rdl = n; }
static std::string slurp(const char *p){ std::string r; FILE *f = fopen(p, "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static int runno; static long lim = -1;
void h_write_limit(long n){ lim = n; }
Run h_run(const std::vector<std::string> &args, const std::string &in, unsigned long){
    const char *bin = getenv("HX_BIN"), *tmp = getenv("HX_TMP"); if (!bin || !tmp) finish(78, "HARNESS", "HX_BIN/HX_TMP");
    std::string t = std::string(tmp) + "/run" + std::to_string(runno++); std::string fi = t + ".in", fo = t + ".out", fe = t + ".err";
    FILE *f = fopen(fi.c_str(), "wb"); fwrite(in.data(), 1, in.size(), f); fclose(f);
    int pp[2] = {-1, -1}; if (lim >= 0 && pipe(pp)) finish(78, "HARNESS", "pipe");
    pid_t pid = fork();
    if (!pid) {
        int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), c = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(a, 0); dup2(b, 1); dup2(lim >= 0 ? pp[1] : c, 2); if (lim >= 0) { signal(SIGXFSZ, SIG_IGN); close(pp[0]); close(pp[1]); }
        struct rlimit rl = {64 << 20, 64 << 20}; if (lim >= 0) rl.rlim_cur = rl.rlim_max = lim; setrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl);
        setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:symbolize=0:verify_asan_link_order=0", 1); setenv("LC_ALL", "C.UTF-8", 1);
        if (rdl >= 0) { setenv("HX_RDPATH", rdp.c_str(), 1); setenv("HX_RDLIM", std::to_string(rdl).c_str(), 1); setenv("LD_PRELOAD", getenv("HX_SHIM"), 1); }
        std::vector<char *> av; av.push_back((char *)"gendlopen"); for (auto &s : args) av.push_back((char *)s.c_str()); av.push_back(nullptr); execv(bin, av.data()); _exit(127); }
    int st = 0; time_t t0 = time(0); bool hang = false; for (;;) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; if (time(0) - t0 > 30) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; } usleep(1000); }
    Run R; R.status = hang ? 124 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); R.out = slurp(fo.c_str()); R.err = slurp(fe.c_str());
    if (lim >= 0) { close(pp[1]); char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) R.err.append(b, n); close(pp[0]); }
    if (getenv("HX_VERBOSE")) { fprintf(stderr, "$ gendlopen"); for (auto &s : args) fprintf(stderr, " '%s'", s.c_str()); fprintf(stderr, "\n-- status %d\n-- stdout\n%s-- stderr\n%s\n", R.status, R.out.c_str(), R.err.c_str()); }
    if (hang || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGXFSZ))) finish(1, "HANG", "the program does not end");
    if (R.status == 99) finish(1, "MEMORY", "AddressSanitizer error");
    if (R.status == 128 + SIGSEGV || R.status == 128 + SIGBUS || R.status == 128 + SIGILL || R.status == 128 + SIGFPE) finish(1, "MEMORY", "killed by a signal");
    return R; }
int h_kind(const char *p){ struct stat s; if (lstat(p, &s)) return 0; return S_ISLNK(s.st_mode) ? 3 : S_ISDIR(s.st_mode) ? 2 : 1; }
std::string h_read(const char *p){ return h_kind(p) == 0 || h_kind(p) == 2 ? "" : slurp(p); }
static std::vector<std::string> lst;
std::vector<std::string> h_list(){ lst.clear(); nftw(".", [](const char *p, const struct stat *, int, struct FTW *) { if (p[0] == '.' && p[1] == '/') lst.push_back(p + 2); return 0; }, 16, FTW_PHYS); std::sort(lst.begin(), lst.end()); return lst; }
void h_reset(){ auto l = h_list(); std::sort(l.rbegin(), l.rend()); for (auto &s : l) { safe(s.c_str()); remove(s.c_str()); } }
#endif
// replay file: lines "name hex"
int main(int argc, char **argv){
    if (argc < 3) return 78; FILE *f = fopen(argv[1], "r"); if (!f) return 78;
    std::string all; int ch; while ((ch = getc(f)) != EOF) all += (char)ch; fclose(f);
    for (size_t i = 0; i < all.size();) { size_t e = all.find('\n', i); if (e == std::string::npos) e = all.size(); std::string s = all.substr(i, e - i); i = e + 1; size_t k = s.find(' '); if (k == std::string::npos) continue; Draw d; d.name = s.substr(0, k); for (size_t j = k + 1; j + 1 < s.size(); j += 2) d.val += (char)strtol(s.substr(j, 2).c_str(), 0, 16); draws.push_back(d); }
    static char obsb[65536]; obsf = fopen(argv[2], "w"); if (obsf) setvbuf(obsf, obsb, _IOFBF, sizeof obsb); harness_main(); if (di != draws.size()) finish(77, "DIVERGED", "values left over"); finish(0, "OK", ""); }
