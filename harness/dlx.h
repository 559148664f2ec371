// The generated code's calls to the linker and the process are redirected to dl.h; included by itself for a separate body file.
#ifndef HX_DLX_H
#define HX_DLX_H
#include <dlfcn.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void *hx_dlopen(const char *f,int flags); void *hx_dlmopen(long ns,const char *f,int flags); void *hx_dlsym(void *h,const char *s); int hx_dlclose(void *h); char *hx_dlerror(void); int hx_dlinfo(void *h,int req,void *out);
#ifdef _GNU_SOURCE
int hx_dladdr(const void *a,Dl_info *i);
#endif
int hx_atexit(void (*f)(void)); void hx_exit(int c); void hx_abort(void); int hx_vfprintf(FILE *f,const char *fmt,va_list ap); int hx_fprintf(FILE *f,const char *fmt,...); int hx_fputc(int c,FILE *f); int hx_fputs(const char *s,FILE *f); size_t hx_fwrite(const void *p,size_t s,size_t n,FILE *f);
#ifdef __cplusplus
}
#endif
#if defined(__cplusplus)&&!defined(HX_DL_H)
#include <cstdlib>
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
#define dlopen hx_dlopen
#define dlmopen hx_dlmopen
#define dlsym hx_dlsym
#define dlclose hx_dlclose
#define dlerror hx_dlerror
#define dlinfo hx_dlinfo
#define dladdr hx_dladdr
#define atexit hx_atexit
#ifndef HX_KEEP_EXIT
#define exit hx_exit
#define abort hx_abort
#define fprintf hx_fprintf
#define fputc hx_fputc
#define fputs hx_fputs
#define fwrite hx_fwrite
#define putc hx_fputc
#define vfprintf hx_vfprintf
#endif
#endif
