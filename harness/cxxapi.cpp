// C06, C07: the C++ API; up to two loader objects that share the library
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <new>
#define HX_KEEP_EXIT
#if ERR
#define HX_MSG(what) new_msg()
static const char *new_msg(void);
#endif
#if ERR&&defined(HX_WIN)&&HX_WIN==1
#define HX_CODE() wcode()
#define HX_TEXT(id) wtext(id)
extern "C" { static unsigned wcode(void); static const char *wtext(unsigned); }
#endif
static int hx_convmay; /* conversions may fail */
#define HX_CONV() (hx_convmay?sym_choice(2,"conv"):1)
#include "dl.h"
#include "sets.h"
#ifdef HX_WIN
#include <fstream>
#include <string>
#include "win.h"
#endif
#if defined(HX_WIN)&&HX_WIN==1
#define WIN1 1
#else
#define WIN1 0
#endif
#ifndef HX_WIN
#define hx_mute 0
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#if !ERR /* numbers are not spelled out where messages are not looked at */
namespace std { template<class T> string hx_to_string(T){ return "number"; } }
#define to_string hx_to_string
#endif
#define GDO_DISABLE_ALIASING
#include "plat.h"
#ifdef BODY
#include "gdo.cpp"
#else
#include "gdo.h"
#endif
#undef to_string
static int cur=-1; static void *ptr[NSYM]; static std::string noerr;
static void *rp(int i){ switch(i){
#define RP(i,n) case i: return (void*)GDO_RAWPTR_##n;
  SYMS(RP) } return 0; }
static const int LD[]={
#define LDN(i,n) GDO_LOAD_##n,
  SYMS(LDN) };
static bool all(){ for(int i=0;i<NSYM;i++) if(!rp(i)) return false; return true; }
static bool any(){ for(int i=0;i<NSYM;i++) if(rp(i)) return true; return false; }
/* what is known about an object */
struct Obj { gdo::dl *d; char name[SLEN+12]; int flags,ns; bool indtor; int kind; /* 0: narrow, 1: converted, 2: wide, 3: either of the first two */ };
static Obj ob[2];
alignas(gdo::dl) static char room[2][sizeof(gdo::dl)];
static char nm[SLEN+NLEN+12];
static const char *name(){ unsigned k=sym_choice(2,"name"); memset(nm,0,sizeof nm); if(k){ sym_bytes(nm,SLEN,"file"); sym_assume(nm[0]!=0); } return nm; }
static std::wstring widen(const std::string &s){ std::wstring w; for(char c:s) w+=(wchar_t)(unsigned char)c; return w; }
static void want_file(const Obj &o){
#if WIN1
  size_t n=strlen(o.name); sym_assert(strlen(hx_file)==n,"opened with another name"); for(size_t i=0;i<n;i++) sym_assert((o.name[i]=='/'&&hx_file[i]=='\\')||(o.name[i]!='/'&&hx_file[i]==o.name[i]),"opened with another name"); sym_assert(o.kind==3||hx_wide==(o.kind>0),"the other kind of characters is used");
#else
  sym_assert(strcmp(hx_file,o.name)==0,"opened with another name");
#endif
}
#if WIN1
#define CONVFAIL (hx_convfail>0)
#else
#define CONVFAIL 0
#endif
static int symint(const char *n){ unsigned char b[4]; sym_bytes(b,4,n); return b[0]|b[1]<<8|b[2]<<16|(int)((unsigned)b[3]<<24); }
#if ERR
#define BUFLEN 8192
static char msgs[2][BUFLEN+8]; static int nmsg; static char *last;
static const char *new_msg(void){
#if WIN1 /* a system message is never empty */
  char *m=msgs[nmsg++&1]; last=m; if(sym_choice(2,"msg")==0){ memset(m,0,4); sym_bytes(m,2,"text"); sym_assume(m[0]!=0); } else strcpy(m,"100%s %n%"); return m; }
static unsigned wcode(void){ return 1000+((nmsg-1)&1); }
static const char *wtext(unsigned id){ sym_assert(id==0||id==6||id==123||id==87||id==1168||id==1000||id==1001,"the message of an unknown code is asked for"); return id==0?"all is well":id==6?"invalid handle":id==123?"invalid name":id==87?"bad parameter":id==1168?"nothing there":msgs[id-1000]; }
static const char *unused(void){ char *m=0; unsigned k=2;
#else
  char *m=msgs[nmsg++&1]; unsigned k=sym_choice(BIG?5:3,"msg"); last=m;
#endif
  switch(k){ case 0: memset(m,0,4); sym_bytes(m,2,"text"); break; case 1: strcpy(m,"100%s %n%"); break; case 2: last=0; return 0; 
    default: { size_t n=BUFLEN-1+(k-3); memset(m,'x',n); m[n]=0; sym_bytes(m+n-3,2,"end"); m[n-3]|=1; m[n-2]|=1; } }
  if(!m[0]) last=0;
  return m; }
static void want_noerr(gdo::dl &x){ sym_assert(x.error()==noerr,"an error is left after a call that succeeded"); }
static std::string want_err(gdo::dl &x,const char *cause){ std::string e=x.error(); sym_assert(!e.empty(),"the error string is empty"); sym_assert(e!=noerr,"a failed call says that there was no error"); if(cause) sym_assert(e.find(cause)!=std::string::npos,"the error does not name the cause"); return e; }
#if WIN1
#define NOLIB (hx_mute?"code: 6":"invalid handle")
static void want_link(gdo::dl &x){ std::string e=want_err(x,0),w=last?last:""; sym_assert(last!=0,"failed although nothing failed"); if(hx_mute){ w="error code: 1000"; w[15]+=(nmsg-1)&1; sym_cover("nomessage"); } size_t n=w.size(),l=e.size(); sym_assert(l>=n,"the system's message is missing"); sym_assert_eq_mem(e.data()+l-n,w.data(),n,"the system's message differs");
  if(l>n){ sym_assert(l>n+2&&e[l-n-2]==':'&&e[l-n-1]==' ',"something in front of the message"); std::string pre=e.substr(0,l-n-2); for(const char *s:{"empty","already","convert","unknown"}) sym_assert(pre.find(s)==std::string::npos,"a stale message"); }
  sym_cover("message"); sym_assert(x.error()==e,"the message changes when asked again"); std::wstring v=x.error_w(); sym_assert(v==widen(e),"the wide message differs"); }
#else
#define NOLIB "library"
static void want_link(gdo::dl &x){ if(!last){ sym_cover("nomessage"); want_err(x,0); return; } std::string e=want_err(x,0); size_t n=strlen(last); sym_assert(e.size()==n,"the linker's message is cut"); sym_assert_eq_mem(e.data(),last,n,"the linker's message differs"); sym_cover("message"); }
#endif
#endif
static int seen[NSYM];
#if WIN1
#define BEGINW hx_convfail=0;
#else
#define BEGINW
#endif
static void begin(){ hx_opens=hx_closes=hx_lookups=0; hx_convmay=0; BEGINW for(int i=0;i<NSYM;i++) seen[i]=hx_sym[i]; 
#if ERR
  last=0; nmsg=0;
#endif
}
static void state(){
#ifdef HX_WIN
  hx_convmay=0; sym_assert(hx_bufs==0,"the buffer of a system message is not freed");
#endif
#if PROP==6
  sym_assert(gdo::dl::lib_loaded()==(cur>=0),"loaded predicate differs"); sym_assert(hx_any()==(cur>=0),"a handle is leaked or lost"); if(cur>=0) sym_assert(hx_live[cur],"the handle in use is closed");
  for(Obj &o:ob) if(o.d){ sym_assert(o.d->filename()==o.name,"filename() differs"); sym_assert(o.d->flags()==o.flags,"flags() differs"); sym_assert(o.d->free_lib_in_dtor()==o.indtor,"free_lib_in_dtor() differs"); }
#elif !ERR
  for(int i=0;i<NSYM;i++){ sym_assert(rp(i)==0||(cur>=0&&rp(i)==HX_ADDR(cur,i)),"a pointer is not what the linker returned for it"); sym_assert(rp(i)==ptr[i],"a pointer was changed by something else than its lookup"); }
  for(Obj &o:ob) if(o.d){ sym_assert(o.d->all_symbols_loaded()==all(),"all_symbols_loaded differs"); sym_assert(o.d->no_symbols_loaded()==!any(),"no_symbols_loaded differs"); sym_assert(o.d->any_symbol_loaded()==any(),"any_symbol_loaded differs"); }
#endif
}
static void one(unsigned r,bool rv,const int *before){ (void)before;
#if PROP==6
  sym_assert(hx_opens==0&&hx_closes==0,"a symbol call opens or closes");
#elif !ERR
  if(cur<0||r==NSYM){ sym_assert(!rv,"succeeds without a library or symbol"); sym_assert(hx_lookups==0,"lookup without a library or symbol"); sym_cover("unknown"); }
  else { sym_assert(hx_lookups==(before[r]?0:1),"wrong number of lookups"); sym_assert(hx_sym[r]-seen[r]==hx_lookups,"another symbol is looked up"); if(!before[r]) ptr[r]=rp(r); sym_assert(rv==(rp(r)!=0),"result differs from the pointer"); sym_cover(rv?"found":"notfound"); }
#endif
}
static void released(){ if(cur>=0) hx_live[cur]=0; cur=-1; for(int i=0;i<NSYM;i++) ptr[i]=0; }
#ifdef HX_WIN
static int hx_nons=1,fl0=HX_WIN==1?0:RTLD_LAZY;
#else
static int hx_nons=PLAT_NONS,fl0=PLAT_FLAGS;
#endif
/* operations: 0 construct 1 destroy 2 load(...) 3 load() 4 load_lib_and_symbols() 5 free() 6 free(true) 7 free_lib_in_dtor 8 load_all_symbols 9 by number 10 by name 11 library_path */
static void hx_step(int op,int k){
  Obj &o=ob[k]; int was=cur,before[NSYM]; bool rv; for(int i=0;i<NSYM;i++) before[i]=rp(i)!=0;
  begin(); if((op==0)==(o.d!=0)) sym_prune(); gdo::dl *d=o.d;
  switch(op){
#if WIN1
  case 0: o.indtor=true; o.ns=0; o.kind=0; o.flags=fl0; o.name[0]=0; switch(sym_choice(4,"constructor")){ case 0: d=new(room[k]) gdo::dl; break; case 1: { const char *f=name(); d=new(room[k]) gdo::dl(f); strcpy(o.name,f); break; } case 2: { const char *f=name(); o.kind=1; o.flags=symint("flags"); d=new(room[k]) gdo::dl(true,f,o.flags); strcpy(o.name,f); break; } default: { const char *f=name(); o.kind=2; o.flags=symint("flags"); strcpy(o.name,f); d=new(room[k]) gdo::dl(widen(f),o.flags); } }
    o.d=d; sym_assert(!hx_opens&&!hx_closes&&!hx_lookups,"construction uses the linker"); break;
  case 1:
    hx_convmay=0; sym_assert(d->filename_w()==widen(o.name),"filename_w() differs");
#else
  case 0: o.indtor=true; o.ns=0; o.flags=fl0; o.name[0]=0; switch(sym_choice(3,"constructor")){ case 0: d=new(room[k]) gdo::dl; break; case 1: { const char *f=name(); d=new(room[k]) gdo::dl(f); strcpy(o.name,f); break; } default: { const char *f=name(); o.flags=symint("flags"); o.ns=sym_choice(2,"ns"); strcpy(o.name,f); d=new(room[k]) gdo::dl(f,o.flags,o.ns); } }
    o.d=d; sym_assert(!hx_opens&&!hx_closes&&!hx_lookups,"construction uses the linker"); break;
  case 1:
#endif
    d->~dl(); o.d=0;
#if PROP==6
    sym_assert(hx_opens==0,"destruction opens something"); sym_assert(hx_closes==(o.indtor&&was>=0),o.indtor?"not closed exactly once":"closed although freeing is switched off"); sym_cover(was<0?"nolib":o.indtor?"closed":"kept");
#endif
    if(o.indtor) released();
#if PROP==6
    for(int i=0;i<NSYM;i++) sym_assert((rp(i)!=0)==(cur>=0&&before[i]),"wrong pointers after the destructor");
#endif
    break;
  case 2: case 3: case 4: {
#if WIN1
    hx_convmay=1;
    if(op==2){ const char *f=name(); strcpy(o.name,f); o.ns=0; switch(sym_choice(4,"arguments")){ case 0: o.flags=fl0; o.kind=o.kind==0||o.kind==2?(o.kind?3:0):3; rv=d->load(f); break; case 1: o.flags=symint("flags"); o.kind=1; rv=d->load(true,f,o.flags); break; case 2: o.kind=0; o.flags=fl0; rv=d->load(false,f,fl0); break; default: o.flags=symint("flags"); o.kind=2; rv=d->load(widen(f),o.flags); } hx_convmay=0; }
#else
    if(op==2){ const char *f=name(); strcpy(o.name,f); switch(sym_choice(2,"arguments")){ case 0: o.flags=fl0; o.ns=0; rv=d->load(f); break; default: o.flags=symint("flags"); o.ns=sym_choice(2,"ns"); rv=d->load(f,o.flags,o.ns); } }
#endif
    else rv=op==3?d->load():d->load_lib_and_symbols();
    hx_convmay=0;
    bool opened=false; if(was<0&&o.name[0]&&hx_nlib&&hx_live[hx_nlib-1]){ opened=true; cur=hx_nlib-1; for(int i=0;i<NSYM;i++) ptr[i]=0; }
#if PROP==6
    if(was>=0){ sym_assert(!rv,"a second load succeeds"); sym_assert(hx_opens==0,"opened while a library is loaded"); sym_cover("again"); }
    else if(!o.name[0]){ sym_assert(!rv,"an empty name is loaded"); sym_assert(hx_opens==0,"an empty name is opened"); sym_cover("empty"); }
    else if(CONVFAIL){ sym_assert(!rv,"succeeds although the name cannot be converted"); sym_assert(hx_opens==0,"opened although the name cannot be converted"); sym_cover("unconverted"); }
    else { sym_assert(hx_opens==1,"not opened exactly once"); want_file(o); sym_assert(hx_flags==o.flags,"opened with other flags"); sym_assert(hx_ns==(hx_nons?0:o.ns),"opened in the wrong namespace"); sym_cover(opened?"loaded":"failed"); sym_assert(rv==(opened&&(op!=4||all())),"load result differs"); }
    sym_assert(hx_closes==0,"a load closes something");
#elif !ERR
    if(op==4&&opened){ sym_assert(rv==all(),"result of loading all symbols differs"); for(int i=0;i<NSYM;i++){ sym_assert(hx_sym[i]-seen[i]<=1,"a symbol is looked up twice"); ptr[i]=rp(i); sym_assert(!ptr[i]||hx_sym[i]>seen[i],"a pointer without a lookup"); } } else sym_assert(hx_lookups==0,"lookup without a load");
#else
    if(rv) want_noerr(*d); else if(was>=0) want_err(*d,"already"); else if(!o.name[0]) want_err(*d,"empty"); else if(CONVFAIL){ want_err(*d,"convert"); if(!hx_mute) want_err(*d,"invalid name"); sym_cover("unconverted"); } else want_link(*d);
#endif
    (void)opened; break; }
  case 5: case 6: {
    rv=d->free(op==6); bool closed=was<0||!hx_live[was];
#if PROP==6
    sym_assert(hx_opens==0,"a release opens something"); sym_assert(hx_closes==(was>=0),"not closed exactly once"); sym_assert(rv==(closed||op==6),"result of the release differs"); sym_cover(was<0?"nothing":closed?"released":"notclosed");
#endif
    if(closed||op==6) released();
#if PROP==6
    for(int i=0;i<NSYM;i++) sym_assert((rp(i)!=0)==(cur>=0&&before[i]),cur>=0?"a failed release changes pointers":"a pointer is left after the release");
#elif !ERR
    sym_assert(hx_lookups==0,"a release looks up symbols");
#else
    if(rv) want_noerr(*d); else want_link(*d);
#endif
    break; }
  case 7: o.indtor=sym_choice(2,"indtor"); d->free_lib_in_dtor(o.indtor); break;
  case 8: rv=d->load_all_symbols();
#if PROP==6
    sym_assert(hx_opens==0&&hx_closes==0,"a symbol call opens or closes");
#elif !ERR
    sym_assert(rv==all(),"result differs from the pointers"); if(cur<0) sym_assert(!rv&&!hx_lookups,"lookup without a library"); for(int i=0;i<NSYM;i++){ sym_assert(hx_sym[i]-seen[i]<=1,"a symbol is looked up twice"); if(hx_sym[i]>seen[i]) ptr[i]=rp(i); } sym_cover(rv?"all":"notall");
#else
    if(rv) want_noerr(*d); else if(cur<0) want_err(*d,NOLIB); else want_link(*d);
#endif
    break;
  case 9: { int n; unsigned r=sym_choice(NSYM+1,"number"); if(r<NSYM) n=LD[r]; else {
#if ERR
      static const int N[]={-1,GDO_ENUM_LAST,GDO_ENUM_LAST+1,2147483647,-2147483647-1}; n=N[sym_choice(5,"num")];
#else
      n=symint("num");
#endif
      for(int i=0;i<NSYM;i++) sym_assume(n!=LD[i]); }
    rv=d->load_symbol(n); one(r,rv,before);
#if ERR
    if(rv) want_noerr(*d); else if(cur<0) want_err(*d,NOLIB); else if(r<NSYM) want_link(*d); else { char t[24]; snprintf(t,sizeof t,"%d",n); want_err(*d,t); sym_cover("number"); }
#endif
    break; }
  case 10: { unsigned c=sym_choice(NSYM+3,"symname"),r=NSYM; const char *s=0; if(c<NSYM){ s=hx_names[c]; r=c; } else if(c==NSYM) s=""; else if(c==NSYM+1){ memset(nm,0,sizeof nm); sym_bytes(nm,NLEN,"symbol"); sym_assume(nm[0]!=0); s=nm; for(int i=0;i<NSYM;i++) if(strcmp(s,hx_names[i])==0) r=i; }
    rv=d->load_symbol(s); one(r,rv,before);
#if ERR
    if(rv) want_noerr(*d); else if(cur<0) want_err(*d,NOLIB); else if(r<NSYM) want_link(*d); else if(!s||!*s) want_err(*d,"empty"); else { want_err(*d,s); sym_cover("name"); }
#endif
    break; }
  case 11: { std::string p=d->library_path();
#if PROP==6
    sym_assert(hx_opens==0&&hx_closes==0,"a path query opens or closes"); 
#elif ERR
    if(!p.empty()) want_noerr(*d); else if(cur<0) want_err(*d,NOLIB);
#endif
    (void)p; break; }
  }
  state(); }
#ifdef OPS
static const int ops[]={OPS};
#define OPC ops[sym_choice(sizeof ops/sizeof*ops,"op")]
#else
#define OPC sym_choice(12,"op")
#endif
extern "C" void harness_main(void){ hx_init();
#ifdef FLAGS
  fl0=FLAGS;
#endif
#if WIN1&&ERR
  hx_mute=sym_choice(2,"mute");
#endif
  noerr=gdo::dl().error(); sym_assert(!noerr.empty(),"the error string is empty"); state();
#ifdef START /* one object to begin with, with a name of its own */
  { Obj &o=ob[0]; o.indtor=true; o.flags=fl0; strcpy(o.name,"lib"); o.d=new(room[0]) gdo::dl("lib"); }
#endif
  for(int i=0;i<K;i++) hx_step(OPC,OBJS>1?sym_choice(2,"object"):0);
  /* all objects end */
  for(int k=0;k<2;k++) if(ob[k].d) hx_step(1,k);
}
