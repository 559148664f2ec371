// Harness side view of one run of the program under test in a file tree of its own.
#ifndef H_H
#define H_H
#include <string>
#include <vector>
#include <string.h>
#include "sym.h"
struct Run { int status; std::string out, err; };               // status: exit code, 134 = abort, 139 = killed by a signal, 124 = hang
void h_file(const char *path, const std::string &data);         // set up the tree
void h_dir(const char *path);
void h_link(const char *path, const char *target);
Run  h_run(const std::vector<std::string> &args, const std::string &in = std::string(), unsigned long limit = 400000000UL);
int  h_kind(const char *path);                                  // 0 none, 1 file, 2 dir, 3 link (not followed)
std::string h_read(const char *path);
std::vector<std::string> h_list();                              // all paths, sorted
void h_write_limit(long bytes);                                  // every file written by the program takes that many bytes (-1: no limit)
void h_read_limit(const char *path, long bytes);                // reads of this file fail after that many bytes (-1: no limit)
void h_reset();                                                 // empty tree
// helpers
static inline void h_assert(bool c, const char *m){ sym_assert(c, m); }
static inline bool h_has(const std::string &s, const char *n){ return s.find(n) != std::string::npos; }
static inline void h_assert_eq(const std::string &a, const std::string &b, const char *m){
    if (a.size() != b.size()) { std::string t = std::string(m) + " (length differs)"; sym_observe("got", a.data(), a.size()); sym_observe("want", b.data(), b.size()); sym_fail(t.c_str()); }
    sym_assert_eq_mem(a.data(), b.data(), a.size(), m); }
static inline void h_observe(const char *l, const std::string &s){ sym_observe(l, s.data(), s.size()); }
static inline std::string h_symbytes(unsigned n, const char *name){ std::string s(n, '\0'); if (n) sym_bytes(&s[0], n, name); return s; }
static inline std::string h_symset(unsigned n, const char *set, const char *name){ std::string s(n, '\0'); if (n) sym_set(&s[0], n, set, strlen(set), name); return s; }
extern "C" void harness_main(void);
#endif
