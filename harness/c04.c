#include "c04.c.h"
#include "c04.h"
#define GDO_DISABLE_ALIASING
#include "plat.h"
#include "gdo.h"
#ifndef _GNU_SOURCE
int hx_dladdr(const void *a,Dl_info *i){ memset(i,0,sizeof *i); return hx_dladdr_(a,&i->dli_fname); }
#endif
static int cur=-1; static char noerr[64]; static char same[BUFLEN+16]; static int asked;
static void query(void){
  unsigned live=sym_heap_live(); int have[NSYM],i0=hx_infos;
#define RP(i,n) have[i]=GDO_RAWPTR_##n!=0;
  SYMS(RP)
  const char *p=gdo_library_path();
  sym_assert(hx_fds==0,"a descriptor is left open"); sym_assert(hx_streams==0,"a stream is left open"); sym_assert(sym_heap_live()==live,"memory is leaked");
  if(cur<0){ sym_assert(p==0,"a path without a library"); sym_assert(hx_infos==i0,"query without a library"); sym_assert(strcmp(gdo_last_error(),noerr)!=0,"no error without a library"); sym_cover("nothing"); return; }
  const char *e=expect(cur,BUFLEN,BUFLEN,have);
  if(p) sym_assert(strcmp(gdo_last_error(),noerr)==0,"error after success"); else sym_assert(strcmp(gdo_last_error(),noerr)!=0,"no path and no error");
  if(!e){ sym_assert(p==0,"a path although no source knows it"); return; }
  sym_assert(p!=0,"no path although it is known"); size_t n=strlen(e),m=0; while(m<=n&&p[m]) m++; sym_assert(m==n,"the path has another length"); sym_assert_eq_mem(p,e,n+1,"the path differs");
  sym_observe("path",p,n<40?n:40); }
static void hx_step(unsigned op){
  switch(op){
  case 0: { bool r=gdo_load_lib_name("x"); if(cur<0&&r) cur=hx_cur(); sym_assert(cur==hx_cur(),"harness: library"); break; }
  case 1: gdo_load_all_symbols(); break;
  case 2: gdo_free_lib(); cur=hx_cur(); break;
  case 3: if(cur>=0){ gdo_force_free_lib(); hx_live[cur]=0; cur=-1; } break;
  case 4: query(); break; } }
void harness_main(void){
  strcpy(noerr,gdo_last_error());
#if RICH
  hx_step(0); sym_assume(cur>=0); if(sym_choice(2,"symbols")) hx_step(1); query(); 
#else
  for(int i=0;i<K;i++) hx_step(sym_choice(5,"op"));
#endif
}
