// C11: the plugin loader
#ifdef __cplusplus
#include <stdexcept>
#include <string>
#endif
#include "sym.h"
#ifdef OOM /* any allocation of the generated code may fail */
#include <stdlib.h>
#include <string.h>
static int hx_oom; /* failed allocations */
static int hx_fails(void){ if(!sym_choice(2,"memory")) { hx_oom++; return 1; } return 0; }
static void *hx_malloc(size_t n){ return hx_fails()?0:malloc(n); }
static void *hx_calloc(size_t n,size_t m){ return hx_fails()?0:calloc(n,m); }
static char *hx_strdup(const char *s){ if(hx_fails()) return 0; size_t n=strlen(s)+1; char *p=(char*)malloc(n); memcpy(p,s,n); return p; }
#endif
#define NF 5
static int nclose[8],asked[8][8],found[8][8],wins; static char opened[8][SLEN+1];
static int hx_open_name(void);
#define HX_OPEN() hx_open_name()
#define HX_CLOSE() (nclose[l]++,sym_choice(2,"close"))
#define HX_FIND(l,s) (asked[l][s]++,found[l][s]=sym_choice(2,"find"))
#include "dl.h"
#include "sets.h"
#ifdef HX_WIN
#include "win.h"
#define FLAGS (HX_WIN==1?0:RTLD_LAZY)
#else
typedef char hx_char;
#endif
static int hx_open_name(void){ sym_assert(strlen(hx_file)<=SLEN,"another name is opened"); if(!sym_choice(2,"open")) return 0; wins++; strcpy(opened[hx_nlib],hx_file); return 1; }
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#include "plat.h"
#ifdef OOM
#define malloc hx_malloc
#define calloc hx_calloc
#undef strdup
#define strdup hx_strdup
#else
#define hx_oom 0
#endif
#ifdef BODY
# ifdef __cplusplus
#  include "gdo.cpp"
# else
#  include "gdo.c"
# endif
#else
#include "gdo.h"
#endif
#ifndef FLAGS
#define FLAGS PLAT_FLAGS
#endif
static char nm[NF][SLEN+1],keep[NF][SLEN+1]; static hx_char wn[NF][SLEN+1]; static const hx_char *files[NF],*given[NF];
/* the characters of the generated code against narrow ones */
static size_t len(const hx_char *s){ size_t n=0; while(s[n]) n++; return n; }
static void same(const hx_char *a,const char *b,size_t n,const char *m){ for(size_t i=0;i<n;i++) sym_assert(a[i]==(hx_char)(unsigned char)b[i],m); }
static void *rp(gdo_plugin_t *p,int e,int i){ switch(i){
#define RP(i,n) case i: return (void*)p->list[e].ptr.n;
  SYMS(RP) } return 0; }
static void run(void){
  int num=sym_choice(MAXN+1,"entries"),null=sym_choice(2,"nolist"),valid=0;
  for(int i=0;i<num;i++){ unsigned k=sym_choice(3,"name"); if(k==0) files[i]=0; else { memset(nm[i],0,sizeof nm[i]); if(k==2){ sym_bytes(nm[i],SLEN,"file"); sym_assume(nm[i][0]!=0); valid++; } for(int k=0;k<=SLEN;k++) wn[i][k]=(hx_char)(unsigned char)nm[i][k]; files[i]=wn[i]; } given[i]=files[i]; memcpy(keep[i],nm[i],sizeof nm[i]); }
  gdo_plugin_t *p=gdo_load_plugins(null?0:(const gdo_char_t**)files,num);
  for(int i=0;i<num;i++){ sym_assert(files[i]==given[i],"the list is changed"); same(wn[i],keep[i],SLEN+1,"a name is changed"); }
  if(null||!num){ sym_assert(!p,"something for nothing"); sym_assert(hx_opens==0,"something is opened"); gdo_release_plugins(p); sym_assert(hx_opens==0&&hx_closes==0&&hx_lookups==0,"something is done for nothing"); sym_cover("none"); return; }
  if(!p&&hx_oom){ sym_assert(hx_closes==wins,"an opened library is lost"); for(int l=0;l<hx_nlib;l++) sym_assert(nclose[l]==1,"a handle is closed twice"); gdo_release_plugins(p); sym_cover("nomemory"); return; }
  sym_assert(p!=0,"no result"); sym_assert(p->num==(size_t)num,"wrong number of entries"); sym_assert(hx_oom?hx_opens<=valid:hx_opens==valid,"not exactly one attempt for every name"); sym_assert(hx_closes==0,"a library is closed"); if(valid) sym_assert(!hx_ns&&hx_flags==FLAGS,"other flags");
  int got=0,used[8]={0};
  for(int i=0;i<num;i++){ gdo_handle_t *e=&p->list[i];
    if(!given[i]||!*given[i]){ sym_assert(!e->handle,"a handle without a name"); sym_assert(!e->filename||!*e->filename,"a name where none was given"); for(int s=0;s<NSYM;s++) sym_assert(!rp(p,i,s),"a pointer without a library"); sym_cover("noname"); continue; }
    size_t n=len(given[i]); if(hx_oom&&!e->filename) sym_cover("nocopy"); else { sym_assert(e->filename!=0,"no file name"); sym_assert(e->filename!=given[i],"the file name is no copy"); sym_assert(len(e->filename)==n,"the file name differs"); same(e->filename,keep[i],n+1,"the file name differs"); }
    if(!e->handle){ for(int s=0;s<NSYM;s++) sym_assert(!rp(p,i,s),"a pointer without a library"); sym_cover("noopen"); continue; }
    int l=hx_idx(e->handle); sym_assert(l>=0,"the handle is wrong"); sym_assert(!used[l],"two entries with one handle"); used[l]=1; got++; sym_assert(strlen(opened[l])==n,"the handle of another file"); sym_assert_eq_mem(opened[l],keep[i],n+1,"the handle of another file");
    for(int s=0;s<NSYM;s++){ sym_assert(asked[l][s]==1,"a symbol is not looked up exactly once"); sym_assert(rp(p,i,s)==(found[l][s]?(void*)hx_cell[l][s]:0),"a pointer is wrong"); if(!found[l][s]) sym_cover("nosymbol"); }
    sym_cover("loaded"); if(e->filename) sym_observe("name",e->filename,n*sizeof(hx_char)); }
  sym_assert(got==wins,"an opened library is lost");
  memset(wn,0x78,sizeof wn); for(int i=0;i<num;i++) if(keep[i][0]&&p->list[i].filename) same(p->list[i].filename,keep[i],strlen(keep[i])+1,"the file name is no copy");
  int op=hx_opens; gdo_release_plugins(p); sym_assert(hx_opens==op,"release opens something");
  for(int l=0;l<hx_nlib;l++) sym_assert(nclose[l]==1,nclose[l]?"a handle is closed twice":"a handle is not closed"); }
#ifdef __cplusplus
extern "C"
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init();
#endif
  unsigned live=sym_heap_live(); run(); sym_assert(sym_heap_live()==live,"memory is leaked"); }
