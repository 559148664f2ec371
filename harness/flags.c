// C01, C06: any combination of the flag names of either system's loading function; a name the system does not know has no effect
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <cstdlib>
#endif
static int target(void);
#define HX_ADDR(l,s) ((void*)target)
#define HX_CONV() 1
#include "dl.h"
#ifdef __cplusplus
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
#include "sets.h"
#ifdef HX_WIN
#include <wchar.h>
#include "win.h"
#endif
#ifdef SOME  /* a system that knows a few names of its own */
#define LOAD_WITH_ALTERED_SEARCH_PATH 8
#define LOAD_LIBRARY_SEARCH_SYSTEM32 0x800
#define RTLD_GROUP 0x400000
#define RTLD_MEMBER 0x40000
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#define FLAGS(_) _(0,RTLD_LAZY) _(1,RTLD_NOW) _(2,RTLD_GLOBAL) _(3,RTLD_LOCAL) _(4,RTLD_BINDING_MASK) _(5,RTLD_CONFGEN) _(6,RTLD_DEEPBIND) _(7,RTLD_FIRST) _(8,RTLD_GROUP) _(9,RTLD_MEMBER) _(10,RTLD_MODEMASK) _(11,RTLD_NOAUTODEFER) _(12,RTLD_NODELETE) _(13,RTLD_NOLOAD) _(14,RTLD_PARENT) _(15,RTLD_TRACE) _(16,RTLD_WORLD) _(17,DL_LAZY) \
 _(18,DONT_RESOLVE_DLL_REFERENCES) _(19,LOAD_IGNORE_CODE_AUTHZ_LEVEL) _(20,LOAD_LIBRARY_AS_DATAFILE) _(21,LOAD_LIBRARY_AS_DATAFILE_EXCLUSIVE) _(22,LOAD_LIBRARY_AS_IMAGE_RESOURCE) _(23,LOAD_LIBRARY_SEARCH_APPLICATION_DIR) _(24,LOAD_LIBRARY_SEARCH_DEFAULT_DIRS) _(25,LOAD_LIBRARY_SEARCH_DLL_LOAD_DIR) _(26,LOAD_LIBRARY_SEARCH_SYSTEM32) _(27,LOAD_LIBRARY_SEARCH_USER_DIRS) _(28,LOAD_WITH_ALTERED_SEARCH_PATH) _(29,LOAD_LIBRARY_REQUIRE_SIGNED_TARGET) _(30,LOAD_LIBRARY_SAFE_CURRENT_DIRS)
/* the system's own values */
static const int before[32]={
#define B1(x) B2(x)
#define B2(x) #x
#ifdef RTLD_LAZY
[0]=RTLD_LAZY,[17]=RTLD_LAZY,
#endif
#ifdef RTLD_NOW
[1]=RTLD_NOW,
#endif
#ifdef RTLD_GLOBAL
[2]=RTLD_GLOBAL,
#endif
#ifdef RTLD_LOCAL
[3]=RTLD_LOCAL,
#endif
#ifdef RTLD_BINDING_MASK
[4]=RTLD_BINDING_MASK,
#endif
#ifdef RTLD_DEEPBIND
[6]=RTLD_DEEPBIND,
#endif
#ifdef RTLD_GROUP
[8]=RTLD_GROUP,
#endif
#ifdef RTLD_MEMBER
[9]=RTLD_MEMBER,
#endif
#ifdef RTLD_NODELETE
[12]=RTLD_NODELETE,
#endif
#ifdef RTLD_NOLOAD
[13]=RTLD_NOLOAD,
#endif
#ifdef LOAD_LIBRARY_SEARCH_SYSTEM32
[26]=LOAD_LIBRARY_SEARCH_SYSTEM32,
#endif
#ifdef LOAD_WITH_ALTERED_SEARCH_PATH
[28]=LOAD_WITH_ALTERED_SEARCH_PATH,
#endif
};
#include "gdo.h"
#undef exit
#undef abort
static int target(void){ return 0; }
#define VAL(i,n) n,
static const int now[32]={FLAGS(VAL)};
#ifndef DEF
#if defined(HX_WIN)&&HX_WIN==1
#define DEF 0
#else
#define DEF (before[0]|before[9])
#endif
#endif
extern
#ifdef __cplusplus
"C"
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init();
#endif
  unsigned m; sym_bytes(&m,4,"flags"); int fl=0,want=0; for(int i=0;i<31;i++){ if(i!=17) sym_assert(now[i]==before[i],"a flag has another value than the system's"); unsigned on=0-((m>>i)&1); fl|=(int)((unsigned)now[i]&on); want|=(int)((unsigned)before[i]&on); }
  unsigned k=sym_choice(3,"how"); static const char lib[]="a.so";
#ifdef __cplusplus
  gdo::dl l(lib,k==1?fl:DEF); bool ok; if(k==0) ok=l.load(lib,fl); else if(k==1) ok=l.load(); else { gdo::dl q(lib); ok=q.load_lib_and_symbols(); q.free(true); want=DEF; }
#else
  bool ok; if(k==0) ok=gdo_load_lib_args(lib,fl,false); else if(k==1) ok=gdo_load_lib_name(lib); else ok=gdo_load_lib_name_and_symbols(lib); if(k) want=DEF;
#endif
  sym_assert(hx_opens==1,"not opened exactly once"); sym_assert(hx_flags==want,"other flags are passed than those requested"); sym_cover(ok?"loaded":"failed"); }
