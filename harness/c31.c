// C31: which library is the default one. ULIB, ULIBA, ULIBW: the user defines GDO_DEFAULT_LIB, GDO_DEFAULT_LIBA, GDO_DEFAULT_LIBW; OPT: -library was given
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <cstdlib>
#endif
static int target(void); static int called;
#define HX_ADDR(l,s) ((void*)target)
#define HX_CONV() 1
#include "dl.h"
#ifdef __cplusplus
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
#include "sets.h"
#ifdef HX_WIN
#include <wchar.h>
#include "win.h"
#ifdef __cplusplus
#undef TX
#define TX(s) (s)
#endif
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#if defined(HX_WIN)&&HX_WIN==1&&defined(_UNICODE)
#define WIDE 1
#else
#define WIDE 0
#endif
#if WIDE
typedef wchar_t lch;
#define WLIT(s) L##s
#else
typedef char lch;
#define WLIT(s) s
#endif
#ifdef AUTO
#define NML WLIT("libuser.so")
#define NMA "liba.so"
#define NMW L"libw.so"
#else
static lch nml[SLEN+1]; static char nma[SLEN+1]; static wchar_t nmw[SLEN+1];
#define NML nml
#define NMA nma
#define NMW nmw
#endif
#ifdef ULIB
#define GDO_DEFAULT_LIB NML
#endif
#ifdef ULIBA
#define GDO_DEFAULT_LIBA NMA
#endif
#ifdef ULIBW
#define GDO_DEFAULT_LIBW NMW
#endif
#ifdef BODY
#ifdef __cplusplus
#include "gdo.cpp"
#else
#include "gdo.c"
#endif
#else
#include "gdo.h"
#endif
#undef exit
#undef abort
#ifdef GDO_DEFAULT_LIB
#define HAVE 1
#else
#define HAVE 0
#endif
static int target(void){ return ++called; }
/* the name that is wanted, in plain characters; null if there is none */
static char want[SLEN+16]; static int have;
#define SET_WANT(p) do { size_t i=0; for(;(p)[i];i++) want[i]=(char)(p)[i]; want[i]=0; have=1; } while(0)
static void wanted(void){
  static const char hard[]="libdef.so";
#ifndef AUTO
  unsigned char b[SLEN]; sym_bytes(b,SLEN,"name"); for(int i=0;i<SLEN;i++){ nml[i]=b[i]; nma[i]=b[i]; nmw[i]=b[i]; if(WIDE) sym_assume(b[i]<0x80); if(!b[i]) break; }
#endif
#ifdef ULIB
  SET_WANT(NML); return;
#endif
#ifdef ULIBA
  if(!WIDE){ SET_WANT(NMA); return; }
#endif
#ifdef ULIBW
  if(WIDE){ SET_WANT(NMW); return; }
#endif
#ifdef OPT
  SET_WANT(hard); return;
#endif
  (void)hard; have=0; }
static void opened(int n){ sym_assert(hx_opens==n,"not opened exactly once"); size_t l=strlen(want); sym_assert(strlen(hx_file)==l,"another library is opened");
  for(size_t i=0;i<l;i++){ char c=want[i]; 
#if defined(HX_WIN)&&HX_WIN==1
    if(c=='/') c='\\';
#endif
    sym_assert(hx_file[i]==c,"another library is opened"); } }
#ifdef AUTO
static int callit(void){ f(); return 0; }
#ifdef __cplusplus
static char said[700];
static void saying(const char *m){ strncpy(said,m,sizeof said-1); }
#else
#define said hx_err
#endif
#endif
extern
#ifdef __cplusplus
"C"
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init();
#endif
#if defined(AUTO)&&defined(__cplusplus)
  gdo::dl::message_callback(saying);
#endif
  wanted(); sym_assert(HAVE==have,have?"there is no default library":"a default library appears out of nothing");
#if HAVE
  /* the other names of it */
#if !defined(AUTO)&&!(defined(ULIB)&&defined(OPT))
#if WIDE
  { const wchar_t *w=GDO_DEFAULT_LIBW; size_t i=0; do { sym_assert((char)w[i]==want[i],"GDO_DEFAULT_LIBW differs"); } while(want[i++]); }
#elif !defined(ULIBA)
  { const char *a=GDO_DEFAULT_LIBA; size_t i=0; do { sym_assert(a[i]==want[i],"GDO_DEFAULT_LIBA differs"); } while(want[i++]); }
#endif
#endif
  for(int k=0;k<K;k++){ hx_opens=0; int empty=!want[0];
#ifdef AUTO
    called=0; int r=hx_try(callit); opened(k==0); if(r==-1){ sym_assert(called==1,"not called exactly once"); sym_cover("called"); continue; } sym_assert(r==1&&k==0,"wrong status"); sym_assert(strstr(said,want)!=0,"the message does not name the library"); sym_cover("exited"); return;
#elif defined(__cplusplus)
    { gdo::dl l(GDO_DEFAULT_LIB); bool ok=sym_choice(2,"op")?l.load():l.load_lib_and_symbols(); if(empty){ sym_assert(!ok&&!hx_opens,"an empty name is opened"); sym_cover("empty"); return; } opened(1); sym_cover(ok?"loaded":"failed"); l.free(true); }
#else
    bool ok=sym_choice(2,"op")?gdo_load_lib():gdo_load_lib_and_symbols(); if(empty){ sym_assert(!ok&&!hx_opens,"an empty name is opened"); sym_cover("empty"); return; } opened(1); sym_cover(ok?"loaded":"failed"); gdo_force_free_lib();
#endif
  }
#else
  sym_cover("none");
#endif
}
