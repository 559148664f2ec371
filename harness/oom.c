// C01: the C loader on Windows when memory runs out: a load that cannot copy or convert the name fails like any other
#include <stdlib.h>
#include <string.h>
#include "sym.h"
static int hx_oom;
static int hx_fails(void){ if(!sym_choice(2,"memory")){ hx_oom=1; return 1; } return 0; }
static void *hx_malloc(size_t n){ return hx_fails()?0:malloc(n); }
static char *hx_strdup(const char *s){ if(hx_fails()) return 0; size_t n=strlen(s)+1; char *p=(char*)malloc(n); memcpy(p,s,n); return p; }
#include "dl.h"
#include "sets.h"
#define HX_DUPFAIL hx_fails
#include "win.h"
#undef malloc
#define malloc hx_malloc
#undef strdup
#define strdup hx_strdup
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#include "gdo.h"
#undef exit
#undef abort
static char nm[SLEN+1]; static hx_char wn[SLEN+1]; static int cur;
static void run(void){
  for(int k=0;k<K;k++) switch(sym_choice(3,"call")){
    case 0: { memset(nm,0,sizeof nm); sym_bytes(nm,SLEN,"file"); sym_assume(nm[0]!=0); for(int i=0;i<=SLEN;i++) wn[i]=(hx_char)(unsigned char)nm[i]; int o=hx_opens,n=hx_nlib; hx_oom=0; int r=gdo_load_lib_name((const gdo_char_t*)wn);
      for(int i=0;i<=SLEN;i++) sym_assert(wn[i]==(hx_char)(unsigned char)nm[i],"the given name is changed"); sym_assert(gdo_lib_is_loaded()==(cur||r),"success and state differ");
      if(cur){ sym_assert(!r,"loaded twice"); sym_assert(hx_opens==o,"opened although a library is loaded"); }
      else if(r){ sym_assert(hx_opens==o+1&&hx_nlib==n+1,"not opened"); sym_assert(strlen(hx_file)==strlen(nm),"opened with another name"); for(size_t i=0;nm[i];i++) sym_assert(hx_file[i]==(nm[i]=='/'?'\\':nm[i]),"opened with another name"); cur=1; sym_cover("loaded"); }
      else { sym_assert(hx_nlib==n,"an opened library is lost"); if(hx_oom) sym_cover("nomemory"); }
      if(!r){ sym_assert(gdo_last_error()!=0&&gdo_last_error()[0]!=0,"a failed load without a message"); sym_cover("refused"); } break; }
    case 1: { int c=hx_closes,r=gdo_free_lib(); sym_assert(hx_closes==c+cur,"not closed exactly once"); if(r){ if(cur) sym_cover("freed"); cur=0; } sym_assert(gdo_lib_is_loaded()==cur,"the state is wrong"); break; }
    default: { int c=hx_closes; gdo_force_free_lib(); sym_assert(hx_closes==c+cur,"not closed exactly once"); cur=0; sym_assert(!gdo_lib_is_loaded(),"still loaded"); } }
  gdo_force_free_lib(); }
void harness_main(void){ unsigned live=sym_heap_live(); run(); sym_assert(sym_heap_live()==live,"memory is leaked"); }
