/* Interface between harnesses and the symbolic executor (natively: replay of recorded values). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void *p, size_t n, const char *name);                                  /* n arbitrary bytes */
void sym_set(void *p, size_t n, const char *set, size_t setlen, const char *name);    /* n bytes out of a set */
unsigned sym_range(unsigned lo, unsigned hi, const char *name);                       /* symbolic value lo..hi (hi-lo<256) */
unsigned sym_choice(unsigned n, const char *name);                                    /* case split 0..n-1 */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_assert_eq_mem(const void *a, const void *b, size_t n, const char *msg);
void sym_fail(const char *msg) __attribute__((noreturn));
void sym_cover(const char *label);
void sym_observe(const char *label, const void *p, size_t n);                         /* compared with the native replay */
unsigned long sym_concrete(unsigned long v);
int  sym_is_symbolic(unsigned long v);
void sym_prune(void) __attribute__((noreturn));
void sym_limit(unsigned long n);                                                      /* instructions allowed from here; 0 = off */
unsigned long sym_ninstr(void);
unsigned sym_heap_live(void);
void sym_print(const void *p, size_t n);
#ifdef SYMX
int  sym_call_marked(void *fn, ...);
void sym_exit_marked(int code) __attribute__((noreturn));
int  sym_in_marked(void);
void sym_prog_reset(void);
unsigned sym_prog_nctors(void);
void sym_prog_ctor(unsigned i);
#endif
#ifdef __cplusplus
}
#endif
#endif
