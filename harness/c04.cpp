#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#define HX_KEEP_EXIT
#include "c04.c.h"
#include "c04.h"
#define GDO_DISABLE_ALIASING
#include "plat.h"
#include "gdo.h"
static int cur=-1; static std::string noerr;
static void query(gdo::dl &o){
  int have[NSYM],i0=hx_infos;
#define RP(i,n) have[i]=GDO_RAWPTR_##n!=0;
  SYMS(RP)
  std::string p=o.library_path();
  sym_assert(hx_fds==0,"a descriptor is left open"); sym_assert(hx_streams==0,"a stream is left open"); 
  if(cur<0){ sym_assert(p.empty(),"a path without a library"); sym_assert(hx_infos==i0,"query without a library"); sym_assert(o.error()!=noerr,"no error without a library"); sym_cover("nothing"); return; }
  /* paths that do not fit the buffer may still be returned here, strings have no limit */
  const char *e=expect(cur,BUFLEN,1<<20,have),*e2=w_info[cur]?expect(cur,1<<20,1<<20,have):e;
  sym_assert((o.error()==noerr)==!p.empty(),"path and error disagree");
  if(!e){ sym_assert(p.empty(),"a path although no source knows it"); return; }
  sym_assert(!p.empty(),"no path although it is known"); size_t n=strlen(e); if(p.size()!=n&&e2){ e=e2; n=strlen(e); } sym_assert(p.size()==n,"the path has another length"); sym_assert_eq_mem(p.c_str(),e,n+1,"the path differs");
  sym_observe("path",p.c_str(),n<40?n:40); }
static void run(){
  gdo::dl a,b; gdo::dl *o[2]={&a,&b}; noerr=a.error();
#if RICH
  a.load("x"); cur=hx_cur(); sym_assume(cur>=0); if(sym_choice(2,"symbols")) a.load_all_symbols(); query(a);
#else
  for(int i=0;i<K;i++){ gdo::dl &x=*o[sym_choice(2,"object")];
    switch(sym_choice(5,"op")){
    case 0: { bool r=x.load("x"); if(cur<0&&r) cur=hx_cur(); sym_assert(cur==hx_cur(),"harness: library"); break; }
    case 1: x.load_all_symbols(); break;
    case 2: x.free(); cur=hx_cur(); break;
    case 3: if(cur>=0){ x.free(true); hx_live[cur]=0; cur=-1; } break;
    case 4: query(x); break; } }
#endif
}
extern "C" void harness_main(void){ hx_init(); { unsigned live=sym_heap_live(); run(); noerr.clear(); noerr.shrink_to_fit(); sym_assert(sym_heap_live()==live,"memory is leaked"); } }
