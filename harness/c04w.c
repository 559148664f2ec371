// C04 on Windows: GetModuleFileName() failing, answering with symbolic bytes or with more than the buffer holds
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <stdexcept>
#define HX_KEEP_EXIT
#endif
static const char *modname(void *h);
#define HX_MODNAME(h) modname(h)
#define HX_CONV() 1
#define GDO_DISABLE_ALIASING
#include "dl.h"
#include "sets.h"
#include "win.h"
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#include "gdo.h"
#define WBUF 32768
static int cur=-1,asked; static char mp[HX_L][WBUF+8]; static int known[HX_L]; /* 0: not chosen, 1: no answer, 2: a path, 3: too long */
static const char *modname(void *h){ int l=hx_idx(h); asked++; sym_assert(l>=0&&hx_live[l],"path query on something that is no open handle");
  if(!known[l]){ unsigned k=sym_choice(BIG?2:3,"module"); char *p=mp[l];
    if(BIG){ size_t n=WBUF-2+sym_choice(4,"length"); memset(p,'x',n); p[n]=0; sym_bytes(p+n-3,2,"end"); sym_assume(p[n-3]!=0&&p[n-2]!=0); known[l]=k==0?1:n<WBUF?2:3; }
    else { known[l]=k==0?1:2; if(k){ memset(p,0,NB+1); sym_bytes(p,NB,"path"); sym_assume(p[0]!=0); } } }
  return known[l]==1?0:mp[l]; }
static int cur_(void){ for(int i=0;i<hx_nlib;i++) if(hx_live[i]) return i; return -1; }
#ifdef __cplusplus
static std::string noerr; static gdo::dl *ob[2];
static void query(int k,int wide){ asked=0; gdo::dl &d=*ob[k];
#if HX_WIN==1
  std::string p; std::wstring w; size_t n; if(wide){ w=d.library_path_w(); n=w.size(); } else { p=d.library_path(); n=p.size(); }
#else
  std::string p=d.library_path(); size_t n=p.size(); wide=0;
#endif
  std::string e=d.error(); sym_assert(!e.empty(),"no error string");
  if(cur<0){ sym_assert(n==0,"a path without a library"); sym_assert(!asked,"query without a library"); sym_assert(e!=noerr,"no error without a library"); sym_cover("nothing"); return; }
  if(known[cur]!=2){ sym_assert(n==0,"a path although it is not known"); sym_assert(e!=noerr,"no path and no error"); sym_cover(known[cur]==3?"toolong":"unknown"); return; }
  size_t m=strlen(mp[cur]); sym_assert(n==m,"the path has another length"); sym_assert(e==noerr,"error after success"); sym_cover("path");
#if HX_WIN==1
  if(wide){ for(size_t i=0;i<n;i++) sym_assert(w[i]==(wchar_t)(unsigned char)mp[cur][i],"the path differs"); return; }
#endif
  sym_assert_eq_mem(p.data(),mp[cur],n,"the path differs"); sym_observe("path",p.data(),n<40?n:40); }
static void hx_step(unsigned op){ int k=sym_choice(2,"object"); switch(op){
  case 0: { bool r=ob[k]->load("x"); if(cur<0&&r) cur=cur_(); sym_assert(cur==cur_(),"harness: library"); break; }
  case 1: ob[k]->load_all_symbols(); break;
  case 2: ob[k]->free(); cur=cur_(); break;
  case 3: if(cur>=0){ ob[k]->free(true); hx_live[cur]=0; cur=-1; } break;
  case 4: query(k,0); break;
  default: query(k,1); } sym_assert(hx_bufs==0,"the buffer of a system message is not freed"); }
extern "C" void harness_main(void){ hx_init();
  ob[0]=new gdo::dl; ob[1]=new gdo::dl; noerr=ob[0]->error();
  for(int i=0;i<K;i++) hx_step(sym_choice(6,"op")); }
#else
static char noerr[80];
static const char *err(void){ static char b[WBUF*2]; const hx_char *e=gdo_last_error(); size_t i=0; do b[i]=(char)e[i]; while(e[i++]); return b; }
static void query(void){ asked=0; unsigned live=sym_heap_live(); const hx_char *p=gdo_library_path();
  if(cur<0){ sym_assert(p==0,"a path without a library"); sym_assert(!asked,"query without a library"); sym_assert(strcmp(err(),noerr)!=0,"no error without a library"); sym_cover("nothing"); return; }
  sym_assert(asked||known[cur]==2,"no query"); sym_assert(sym_heap_live()==live,"memory is leaked");
  if(known[cur]!=2){ sym_assert(p==0,"a path although it is not known"); sym_assert(strcmp(err(),noerr)!=0,"no path and no error"); sym_cover(known[cur]==3?"toolong":"unknown"); return; }
  sym_assert(p!=0,"no path although it is known"); sym_assert(strcmp(err(),noerr)==0,"error after success"); size_t n=strlen(mp[cur]); for(size_t i=0;i<=n;i++) sym_assert(p[i]==(hx_char)(unsigned char)mp[cur][i],"the path differs"); sym_cover("path"); sym_observe("path",p,(n<40?n:40)*sizeof *p); }
static void hx_step(unsigned op){ switch(op){
  case 0: { bool r=gdo_load_lib_name(TX("x")); if(cur<0&&r) cur=cur_(); sym_assert(cur==cur_(),"harness: library"); break; }
  case 1: gdo_load_all_symbols(); break;
  case 2: gdo_free_lib(); cur=cur_(); break;
  case 3: if(cur>=0){ gdo_force_free_lib(); hx_live[cur]=0; cur=-1; } break;
  default: query(); } sym_assert(hx_bufs==0,"the buffer of a system message is not freed"); }
void harness_main(void){ strcpy(noerr,err());
  for(int i=0;i<K;i++) hx_step(sym_choice(5,"op")); }
#endif
