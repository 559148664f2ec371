// C28: names of library files: the macros and make_libname()
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <type_traits>
#define HX_KEEP_EXIT
#endif
#include "dl.h"
#include <wchar.h>
#include "sets.h"
#ifdef HX_WIN
#ifdef __cplusplus
#include <fstream>
#endif
#include "win.h"
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#define GDO_DISABLE_ALIASING
#if defined(MAKE)&&!defined(DIGITS)
/* the spelling of numbers is the standard library's business: here a number is <xxxxxxxx> with the eight bytes of its value */
namespace std {
template<class S,class T> S hx_spell(T t){ unsigned long long v=(unsigned long long)t; S r; r+='<'; for(int i=0;i<8;i++) r+=(typename S::value_type)(unsigned char)(v>>8*i); r+='>'; return r; }
template<class T> string hx_to_string(T t){ return hx_spell<string>(t); }
template<class T> wstring hx_to_wstring(T t){ return hx_spell<wstring>(t); } }
#define to_string hx_to_string
#define to_wstring hx_to_wstring
#endif
#include "plat.h"
#include "gdo.h"
#undef to_string
#undef to_wstring
#undef exit
#undef abort
/* what the file is called: PRE name MID number POST */
#if defined(HX_WIN)
# ifdef HX_MSVC
#  define PRE ""
# else
#  define PRE "lib"
# endif
# define MID "-"
# define POST ".dll"
# define EXT ".dll"
# define NUM 1
#elif PLAT==1
# define PRE "lib"
# define MID "."
# define POST ".dylib"
# define EXT ".dylib"
# define NUM 1
#elif PLAT==2
# define PRE "lib"
# define MID ""
# define POST ".so"
# define EXT ".so"
# define NUM 0
#elif PLAT==3
# define PRE "lib"
# define MID ""
# ifdef BITS32
#  define POST ".a(shr.o)"
# else
#  define POST ".a(shr_64.o)"
# endif
# define EXT ".a"
# define NUM 0
#else
# define PRE "lib"
# define MID ".so."
# define POST ""
# define EXT ".so"
# define NUM 1
#endif
#if NUM
#define FILE_(n,a) PRE #n MID #a POST
#else
#define FILE_(n,a) PRE #n MID POST
#endif
static void same(const char *a,const char *b){ sym_assert(strcmp(a,b)==0,"a macro makes another name"); sym_cover("macro"); }
static void wsame(const wchar_t *a,const char *b){ size_t i=0; do sym_assert(a[i]==(wchar_t)(unsigned char)b[i],"a wide macro makes another name"); while(b[i++]); sym_cover("wide"); }
/* GDO_LIBNAME is for GDO_CHAR: wide characters on Windows with _UNICODE, plain otherwise; the other kind is a wrong answer, not a broken build */
#if defined(HX_WIN)&&defined(_UNICODE)
#define NWIDE 1
#else
#define NWIDE 0
#endif
static void kind(const void *a,size_t unit,const char *b){ sym_assert(unit==(NWIDE?sizeof(wchar_t):1),"a name of the wrong character type"); if(NWIDE) wsame((const wchar_t*)a,b); else same((const char*)a,b); }
#define TSAME(a,b) kind((a),sizeof(*(a)),(b))
static void macros(void){
#define CK(n,a) same(GDO_LIBNAMEA(n,a),FILE_(n,a)); wsame(GDO_LIBNAMEW(n,a),FILE_(n,a)); TSAME(GDO_LIBNAME(n,a),FILE_(n,a));
  switch(sym_choice(6,"macro")){ case 0: CK(foo,1) break; case 1: CK(foo,1.2) break; case 2: CK(z,0) break; case 3: CK(SDL2,2.0) break; case 4: CK(a-b_c,123456789) break;
  default: same(GDO_LIBEXTA,EXT); wsame(GDO_LIBEXTW,EXT); TSAME(GDO_LIBEXT,EXT); } }
#ifdef MAKE
static void make(void){
  static char nm[NL+1]; unsigned n=sym_choice(NL+1,"length"); if(n) sym_bytes(nm,n,"name"); std::string in(nm,n);
  size_t api=0; unsigned char b[8]={0}; sym_bytes(b,AB,"api"); for(int i=0;i<8;i++) api|=(size_t)b[i]<<8*i;
#ifdef AMAX
  sym_assume(api<AMAX);
#endif
  std::string r;
#if defined(HX_WIN)&&HX_WIN==1
  if(sym_choice(2,"wide")){ std::wstring w; for(char c:in) w+=(wchar_t)(unsigned char)c; std::wstring o=gdo::make_libname(w,api); for(wchar_t c:o){ sym_assert(c<256,"a character is damaged"); r+=(char)c; } sym_cover("widename"); } else
#endif
  r=gdo::make_libname(in,api);
  const char *p=r.data(),*e=p+r.size(); size_t k;
  k=strlen(PRE); sym_assert((size_t)(e-p)>=k&&memcmp(p,PRE,k)==0,"another beginning"); p+=k;
  sym_assert((size_t)(e-p)>=n,"the name is missing"); if(n) sym_assert_eq_mem(p,nm,n,"the name differs"); p+=n;
  k=strlen(MID); sym_assert((size_t)(e-p)>=k&&memcmp(p,MID,k)==0,"another separator"); p+=k;
  k=strlen(POST); sym_assert((size_t)(e-p)>=k&&memcmp(e-k,POST,k)==0,"another end"); e-=k;
#if NUM
#ifndef DIGITS
  if(e-p==10&&p[0]=='<'&&p[9]=='>'){ unsigned long long v=0; for(int i=0;i<8;i++) v|=(unsigned long long)(unsigned char)p[1+i]<<8*i; sym_assert(v==api,"another number"); sym_cover("made"); return; }
#endif
  sym_assert(e-p>=1,"the number is missing"); sym_assert(p[0]!='0'||e-p==1,"a leading zero"); sym_assert(e-p<=20,"too many digits"); size_t v=0; bool d=true; for(;p<e;p++){ d=d&&*p>='0'&&*p<='9'; v=v*10+(size_t)(*p-'0'); } sym_assert(d,"not a digit"); sym_assert(v==api,"another number"); sym_cover("made");
#else
  sym_assert(p==e,"more than the name"); sym_cover("made");
#endif
}
/* the macro and the function agree */
#define AGREE(n,a) sym_assert(gdo::make_libname(#n,a)==GDO_LIBNAMEA(n,a),"macro and function disagree");
static void agree(void){
#ifndef DIGITS
  return;
#endif
 switch(sym_choice(4,"agree")){ case 0: AGREE(foo,0) break; case 1: AGREE(z,1) break; case 2: AGREE(SDL2,26) break; default: AGREE(a-b,4294967296) } sym_cover("agree"); }
#endif
void harness_main_(void){
#ifdef MAKE
  if(!sym_choice(2,"macros")){ if(sym_choice(4,"function")) make(); else agree(); return; }
#endif
  macros(); }
#ifdef __cplusplus
extern "C" void harness_main(void){ hx_init(); harness_main_(); }
#else
void harness_main(void){ harness_main_(); }
#endif
