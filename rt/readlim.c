// LD_PRELOAD library for native replays: reads of one file fail (EIO) after a number of bytes.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
struct ck { FILE *f; long left; };
static ssize_t rd(void *c, char *b, size_t n){ struct ck *k = c; if (k->left <= 0) { errno = EIO; return -1; } if (n > (size_t)k->left) n = k->left; n = fread(b, 1, n, k->f); k->left -= n; return n; }
static int cl(void *c){ struct ck *k = c; int r = fclose(k->f); free(k); return r; }
static FILE *open_(const char *p, const char *m, const char *fn){
    FILE *(*real)(const char *, const char *) = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, fn); FILE *f = real(p, m);
    const char *q = getenv("HX_RDPATH"), *l = getenv("HX_RDLIM"); if (!f || !q || !l || strcmp(p, q) || m[0] != 'r') return f;
    struct ck *k = malloc(sizeof *k); k->f = f; k->left = atol(l); cookie_io_functions_t io = {rd, 0, 0, cl}; return fopencookie(k, m, io); }
FILE *fopen(const char *p, const char *m){ return open_(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m){ return open_(p, m, "fopen64"); }
