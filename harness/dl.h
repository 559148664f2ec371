// Stub dynamic linker for the loader harnesses: every answer is a choice of the solver, every call is recorded.
#ifndef HX_DL_H
#define HX_DL_H
#include "sym.h"
#include <dlfcn.h>
#include <link.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <linux/fs.h>
#ifdef __cplusplus
extern "C" {
#endif
#define HX_L 8
#define HX_S 12
extern const char *const hx_names[];                       /* the symbols, given by the harness */
static int hx_live[HX_L], hx_nlib, hx_opens, hx_closes, hx_lookups, hx_sym[HX_S];
static int hx_ns, hx_flags; static char hx_file[16400];     /* arguments of the last open */
static char hx_base[HX_L], hx_cell[HX_L][HX_S][16];
static const char *hx_pending; static int hx_nmsg;           /* dlerror() */
static void (*hx_exitfn[8])(void); static int hx_nexit, hx_exits;
static int hx_any(void){ int n=0; for(int i=0;i<hx_nlib;i++) n+=hx_live[i]; return n; }
static int hx_idx(void *h){ for(int i=0;i<hx_nlib;i++) if(h==(void*)&hx_base[i]) return i; return -1; }
#ifndef HX_MSG
#define HX_MSG(what) what " error"
#endif
#ifndef HX_ADDR
#define HX_ADDR(l,s) ((void*)hx_cell[l][s])
#endif
#ifndef HX_OPEN
#define HX_OPEN() sym_choice(2,"open")
#endif
#ifndef HX_FIND
#define HX_FIND(l,s) sym_choice(2,"find")
#endif
#ifndef HX_CLOSE
#define HX_CLOSE() sym_choice(2,"close")
#endif
static void *hx_do_open(const char *f,int flags,int ns){
  hx_opens++; hx_flags=flags; hx_ns=ns; sym_assert(f!=0,"the linker is called with a null name"); size_t n=strlen(f); sym_assert(n<sizeof hx_file,"harness: name too long"); memcpy(hx_file,f,n+1);
  if(!HX_OPEN()){ hx_pending=HX_MSG("open"); return 0; }
  if(hx_nlib==HX_L) sym_fail("harness: too many libraries"); hx_live[hx_nlib]=1; return &hx_base[hx_nlib++]; }
void *hx_dlopen(const char *f,int flags){ return hx_do_open(f,flags,0); }
void *hx_dlmopen(long ns,const char *f,int flags){ sym_assert(ns==-1,"not a new namespace"); return hx_do_open(f,flags,1); }
void *hx_dlsym(void *h,const char *s){
  int l=hx_idx(h); sym_assert(l>=0,"lookup on something that is no handle"); sym_assert(hx_live[l],"lookup on a closed handle"); hx_lookups++;
  for(int i=0;hx_names[i];i++) if(strcmp(hx_names[i],s)==0){ hx_sym[i]++; if(!HX_FIND(l,i)){ hx_pending=HX_MSG("sym"); return 0; } return HX_ADDR(l,i); }
  sym_fail("lookup of a name that is no symbol of the library"); return 0; }
int hx_dlclose(void *h){ int l=hx_idx(h); sym_assert(l>=0,"close of something that is no handle"); sym_assert(hx_live[l],"a handle is closed twice"); hx_closes++; if(!HX_CLOSE()){ hx_pending=HX_MSG("close"); return -1; } hx_live[l]=0; return 0; }
char *hx_dlerror(void){ const char *p=hx_pending; hx_pending=0; return (char*)p; }
#ifndef HX_OWN_PATHS
static struct link_map hx_lm[HX_L]; static char hx_path[HX_L][8];
int hx_dlinfo(void *h,int req,void *out){ int l=hx_idx(h); sym_assert(l>=0&&hx_live[l],"path query on something that is no open handle"); sym_assert(req==2,"unexpected request"); strcpy(hx_path[l],"/lib"); hx_path[l][4]='0'+l; hx_path[l][5]=0; hx_lm[l].l_name=hx_path[l]; *(struct link_map**)out=&hx_lm[l]; return 0; }
#if defined(PLAT)&&PLAT!=0&&PLAT!=4&&PLAT!=3 /* no dlinfo(): the path of a symbol */
int hx_dladdr(const void *a,Dl_info *i){ memset(i,0,sizeof *i); for(int l=0;l<hx_nlib;l++) for(int k=0;hx_names[k];k++) if(hx_live[l]&&a==(void*)hx_cell[l][k]){ strcpy(hx_path[l],"/lib"); hx_path[l][4]='0'+l; hx_path[l][5]=0; i->dli_fname=hx_path[l]; return 1; } return 0; }
#elif defined(_GNU_SOURCE)
int hx_dladdr(const void *a,Dl_info *i){ return 0; }
#endif
#if defined(PLAT)&&PLAT==3
#include "plat/sys/ldr.h"
int loadquery(int what,void *b,unsigned n){ sym_assert(what==L_GETINFO,"another query"); struct ld_info *e=(struct ld_info*)b; unsigned step=sizeof *e+8; memset(b,0,step*2); strcpy(e->ldinfo_filename,"/prog"); e->ldinfo_textorg=(void*)hx_names; e->ldinfo_textsize=8;
  for(int l=0;l<hx_nlib;l++) if(hx_live[l]){ e->ldinfo_next=step; e=(struct ld_info*)((char*)e+step); memset(e,0,step); e->ldinfo_dataorg=hx_cell[l]; e->ldinfo_datasize=sizeof hx_cell[l]; strcpy(e->ldinfo_filename,"/lib"); e->ldinfo_filename[4]='0'+l; return 0; } return 0; }
#endif
#endif
int hx_atexit(void (*f)(void)){ if(!sym_choice(2,"atexit")) return -1; if(hx_nexit==8) sym_fail("harness: too many exit functions"); hx_exitfn[hx_nexit++]=f; return 0; }
/* runs f; -1 if it returns, otherwise the exit status (134: abort) */
#ifdef SYMX
static int (*hx_f)(void); static int hx_tr(void){ hx_f(); return -1; }
static int hx_try(int (*f)(void)){ hx_f=f; return sym_call_marked((void*)hx_tr); }
static void hx_leave(int c){ sym_exit_marked(c); }
#else
#include <setjmp.h>
static jmp_buf hx_jb; static int hx_code,hx_on;
static int hx_try(int (*f)(void)){ hx_on=1; if(setjmp(hx_jb)){ hx_on=0; return hx_code; } f(); hx_on=0; return -1; }
static void hx_leave(int c){ hx_code=c; longjmp(hx_jb,1); }
#endif
void hx_exit(int c){ hx_exits++; while(hx_nexit) hx_exitfn[--hx_nexit](); hx_leave(c); for(;;); }
void hx_abort(void){ hx_leave(134); for(;;); }
static char hx_err[600]; static size_t hx_nerr; /* what was printed to stderr */
int hx_vfprintf(FILE *f,const char *fmt,va_list ap){ sym_assert(f==stderr,"printed somewhere else"); int n=vsnprintf(hx_err+hx_nerr,sizeof hx_err-hx_nerr,fmt,ap); hx_nerr+=n; if(hx_nerr>=sizeof hx_err) hx_nerr=sizeof hx_err-1; return n; }
int hx_fprintf(FILE *f,const char *fmt,...){ va_list ap; va_start(ap,fmt); int n=hx_vfprintf(f,fmt,ap); va_end(ap); return n; }
int hx_fputc(int c,FILE *f){ sym_assert(f==stderr,"printed somewhere else"); if(hx_nerr+1<sizeof hx_err){ hx_err[hx_nerr++]=c; hx_err[hx_nerr]=0; } return c; }
int hx_fputs(const char *s,FILE *f){ return hx_fprintf(f,"%s",s); }
size_t hx_fwrite(const void *p,size_t s,size_t n,FILE *f){ for(size_t i=0;i<s*n;i++) hx_fputc(((const unsigned char*)p)[i],f); return n; }
#ifdef HX_SNPRINTF /* numbers are not spelled out where messages are not looked at */
int hx_snprintf(char *b,size_t n,const char *fmt,...){ int r; if(strstr(fmt,"%d")||strstr(fmt,"%i")||strstr(fmt,"%u")) fmt="number"; va_list ap; va_start(ap,fmt); r=vsnprintf(b,n,fmt,ap); va_end(ap); return r; }
#define snprintf hx_snprintf
#endif
#ifdef __cplusplus
}
#endif
#include "dlx.h"
#endif

#ifdef __cplusplus
/* constructors of static objects (done natively by the start-up code) */
static inline void hx_init(void){
#ifdef SYMX
  unsigned n=sym_prog_nctors(); for(unsigned i=0;i<n;i++) sym_prog_ctor(i);
#endif
}
#endif
