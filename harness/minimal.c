// C09 (C), C10 (C++): the minimal loaders
#ifdef __cplusplus
#include <stdexcept>
#include <string>
#include <type_traits>
#endif
#include "sym.h"
static int nclose[8],asked[8],found[8];
#define HX_CLOSE() (nclose[l]++,sym_choice(2,"close"))
#define HX_FIND(l,s) (asked[s]=1,found[s]=sym_choice(2,"find"))
#include "dl.h"
#include "sets.h"
#ifdef HX_WIN
#include "win.h"
#define FLAGS (HX_WIN==1?0:RTLD_LAZY)
#else
#define FLAGS PLAT_FLAGS
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#include "plat.h"
#include "gdo.h"
#ifdef MCXX
#define H(x) gdo::x
#define FREE gdo::free_library
#else
#define H(x) gdo_hndl.x
#define FREE gdo_free_library
#endif
static int cur=-1,done; static void *ptr[NSYM]; static void *hd;
static void *rp(int i){ switch(i){
#define RP(i,n) case i: return (void*)H(GDO_PTR_##n);
  SYMS(RP) } return 0; }
#ifndef GDO_DISABLE_ALIASING
static void aliases(void){
#define FA(i,n) sym_assert((void*)n==rp(i),"the alias of a function is not its pointer");
#define OA(i,n) sym_assert((void*)&n==rp(i),"the alias of an object is not the object");
  FUNCS(FA) OBJSYM(OA) }
#else
static void aliases(void){}
#endif
static char nm[SLEN+1];
static const char *name(void){ unsigned k=sym_choice(3,"name"); if(k==0) return 0; if(k==1) return ""; memset(nm,0,sizeof nm); sym_bytes(nm,SLEN,"file"); sym_assume(nm[0]!=0); return nm; }
static int word(const char *m,const char *w){ size_t n=strlen(w); for(const char *p=m;(p=strstr(p,w));p++){ int b=p==m?0:(unsigned char)p[-1],e=(unsigned char)p[n]; if(!(b=='_'||(b>='a'&&b<='z'))&&!(e=='_'||(e>='a'&&e<='z'))) return 1; } return 0; }
static void state(void){ /* everything that was opened is held or was closed exactly once */
  sym_assert(H(handle)==(cur<0?0:(void*)&hx_base[cur]),"the handle is wrong");
  for(int i=0;i<hx_nlib;i++) sym_assert(nclose[i]==(i!=cur),i==cur?"the library in use is closed":nclose[i]?"a handle is closed twice":"a handle is leaked");
  for(int i=0;i<NSYM;i++) sym_assert(rp(i)==(cur<0?0:(void*)hx_cell[cur][i]),cur<0?"a pointer is left":"a pointer is wrong");
  if(cur>=0) aliases(); }
static void load(void){
  const char *fn=name(); int n0=hx_nlib; hx_opens=hx_closes=hx_lookups=0; memset(asked,0,sizeof asked); memset(found,0,sizeof found); int ok=0; const char *m=0; enum { NONE,LIB,SYM,OTHER } what=NONE;
#ifdef MCXX
  static char keep[40]; keep[0]=0; size_t len=0;
  try { gdo::load_library_and_symbols(fn); ok=1; }
  catch(const gdo::SymbolError &e){ what=SYM; len=strlen(e.what()); strncpy(keep,e.what(),39); }
  catch(const gdo::LibraryError &e){ what=LIB; len=strlen(e.what()); strncpy(keep,e.what(),39); }
  catch(...){ what=OTHER; }
  sym_assert(!std::is_base_of<gdo::LibraryError,gdo::SymbolError>::value&&!std::is_base_of<gdo::SymbolError,gdo::LibraryError>::value,"a handler for one exception catches the other"); sym_assert(std::is_base_of<std::runtime_error,gdo::SymbolError>::value&&std::is_base_of<std::runtime_error,gdo::LibraryError>::value,"not runtime errors");
  m=keep; sym_assert(what!=OTHER,"another exception"); sym_assert(ok||len>0,"the exception has no message"); sym_assert(len<40,"the message is no file or symbol name");
#else
  m=gdo_load_library_and_symbols(fn); ok=m==0; sym_assert(ok||*m,"the message is empty");
#endif
  if(!fn||!*fn){ sym_assert(!ok,"success without a name"); sym_assert(hx_opens==0&&hx_closes==0&&hx_lookups==0,"something is done without a name"); 
#ifdef MCXX
    sym_assert(what==LIB,"wrong exception for an invalid name"); sym_assert(strcmp(m,fn?"<NULL>":"<EMPTY>")!=0,"the marker is wrong");
#endif
    sym_cover("invalid"); state(); return; }
  sym_assert(hx_opens==1,"the library is not opened exactly once"); sym_assert(!hx_ns&&hx_flags==FLAGS,"other flags"); size_t n=strlen(fn); sym_assert(strlen(hx_file)==n,"opened with another name"); sym_assert_eq_mem(hx_file,fn,n+1,"opened with another name");
  if(hx_nlib==n0){ cur=-1; sym_assert(!ok,"success although the library is not open"); sym_assert(hx_lookups==0,"lookup without a library");
#ifdef MCXX
    sym_assert(what==LIB,"wrong exception for a missing library"); sym_assert(len==n,"the exception does not have the name of the library"); sym_assert_eq_mem(m,fn,n+1,"the exception does not have the name of the library");
#endif
    sym_cover("noopen"); state(); return; }
  int missing=0,all=1; for(int i=0;i<NSYM;i++) { if(!found[i]) all=0; if(asked[i]&&!found[i]) missing=1; }
  sym_assert(ok==all,ok?"success although a symbol is missing":"failed although all symbols were found"); cur=ok?n0:-1;
  if(!ok){ sym_assert(missing,"failed although no symbol is missing"); int named=0; for(int i=0;i<NSYM;i++){
#ifdef MCXX
      int w=strcmp(m,hx_names[i])==0;
#else
      int w=word(m,hx_names[i]);
#endif
      if(w){ named++; sym_assert(asked[i]&&!found[i],"another symbol is named"); } }
    sym_assert(named>=1,"the missing symbol is not named");
#ifdef MCXX
    sym_assert(what==SYM,"wrong exception for a missing symbol");
#endif
    sym_cover("nosymbol"); } else sym_cover("loaded");
  if(hx_closes>0&&ok) sym_cover("reload");
  state(); sym_observe("message",ok?"":m,ok?0:strlen(m)<30?strlen(m):30); }
static void release(void){ hx_opens=hx_closes=hx_lookups=0; FREE(); sym_assert(hx_opens==0&&hx_lookups==0,"release opens or looks up something"); sym_assert(hx_closes==(cur>=0),"release closes more or less than the library in use"); if(cur>=0) sym_cover("released"); else sym_cover("nothing"); cur=-1; state(); }
static void run(void){ state(); for(int i=0;i<K;i++) if(sym_choice(2,"op")==0) load(); else release(); release(); }
#ifdef __cplusplus
extern "C"
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init();
#endif
  unsigned live=sym_heap_live(); run(); sym_assert(sym_heap_live()==live,"memory is leaked"); }
