// C05 (C), C08 (C++): wrapper functions and auto-loading
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <cstdlib>
#include <streambuf>
#endif
#define HX_MSG(what) hx_new_cause()
static void *hx_fn(int);
#define HX_ADDR(l,s) hx_fn(s)
static const char *hx_cause; static const char *const causes[]={"it failed","libdef.so: 100%s %n%d","x"};
#include "sym.h"
static unsigned hx_ck; static const char *hx_new_cause(void){ const char *c=causes[hx_ck=sym_choice(3,"msg")]; if(!hx_cause) hx_cause=c; return c; }
#ifdef HX_WIN
#define HX_CODE() (1000+hx_ck)
#define HX_TEXT(id) ((id)>=1000?causes[(id)-1000]:"other text")
#define HX_CONV() 1
#endif
#include "dl.h"
#ifdef HX_WIN
#include <wchar.h>
#include "win.h"
#define FL0 (HX_WIN==1?0:RTLD_LAZY)
#ifdef __cplusplus
#undef TX
#define TX(s) (s)
#endif
#else
#define TX(s) (s)
#define FL0 RTLD_LAZY
#endif
#ifndef LIB
#define LIB "libdef.so"
#endif
#ifdef __cplusplus
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
#ifdef __cplusplus
#define BOXES (which==0)
#else
#define BOXES 1
#endif
#include "sets.h"
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
/* the functions of the library: they record what they are given */
static int hx_calls[NSYM],hx_hooks[NSYM],hook_early,hook_wrong; static unsigned long got[4]; static unsigned long ret8; static double retd;
static unsigned long bits(double d){ unsigned long u; memcpy(&u,&d,8); return u; }
#if SET==4
static int r_add(int a,int b){ hx_calls[0]++; got[0]=(unsigned)a; got[1]=(unsigned)b; return (int)ret8; }
static void r_put(char *d,char c){ hx_calls[1]++; got[0]=(unsigned long)d; got[1]=(unsigned char)c; }
static double r_mix(double x,unsigned char y,const char *z,long w){ hx_calls[2]++; got[0]=bits(x); got[1]=y; got[2]=(unsigned long)z; got[3]=w; return retd; }
static long r_cb(int (*f)(int),int n){ hx_calls[3]++; got[0]=(unsigned long)f; got[1]=(unsigned)n; return ret8; }
static void *const fns[]={(void*)r_add,(void*)r_put,(void*)r_mix,(void*)r_cb};
static int someint(int x){ return x; }
#elif SET==5
static int r_vsum(int n,...){ hx_calls[0]++; got[0]=(unsigned)n; va_list ap; va_start(ap,n); got[1]=(unsigned)va_arg(ap,int); got[2]=(unsigned long)va_arg(ap,const char*); got[3]=va_arg(ap,long); va_end(ap); return (int)ret8; }
static int r_add(int a,int b){ hx_calls[1]++; got[0]=(unsigned)a; got[1]=(unsigned)b; return (int)ret8; }
static void *const fns[]={(void*)r_vsum,(void*)r_add};
#else
#include "types.h"
static struct small r_flip(struct small s){ hx_calls[0]++; got[0]=(unsigned)s.a; got[1]=(unsigned char)s.b; struct small r; r.a=(int)ret8; r.b=(char)(ret8>>32); return r; }
static struct large r_blow(int k,struct large s){ hx_calls[1]++; got[0]=(unsigned)k; got[1]=s.v[0]; got[2]=s.v[1]; got[3]=s.v[3]; struct large r; memset(&r,0,sizeof r); r.v[0]=ret8; r.v[3]=~ret8; return r; }
static void *const fns[]={(void*)r_flip,(void*)r_blow};
#endif
static void *hx_fn(int s){ return fns[s]; }
static int hook_fn(int i){ hx_hooks[i]++; if(hx_calls[i]) hook_early=1; return 0; }
#ifdef HOOKS
static int hook_add(int a,int b){ hook_fn(SET==5); if((unsigned)a!=got[2]||(unsigned)b!=got[3]) hook_wrong=1; return 0; }
#define GDO_HOOK_add(...) hook_add(__VA_ARGS__)
#if SET==4
static int hook_put(char *d,char c){ return hook_fn(1); }
#define GDO_HOOK_put(...) hook_put(__VA_ARGS__)
#endif
#endif
#ifdef PACK /* GNU inline wrappers: the pack of arguments stands for the ones that prepare() chose */
static int ib; static const char *cp; static long lw;
#define GDO_BUILTIN_VA_ARG_PACK
#define __builtin_va_arg_pack() ib,cp,lw
#define __gnu_inline__ __noinline__
#endif
#ifdef VIS
#define GDO_WRAP_VISIBILITY __attribute__((visibility("default")))
#endif
#include "plat.h"
#ifdef BODY
# ifdef __cplusplus
# include "gdo.cpp"
# else
# include "gdo.c"
# endif
#define W(n) GDO_WRAP_##n
#else
#include "gdo.h"
#define W(n) n
#endif
#undef exit
#undef abort
#undef fprintf
#undef fputc
#undef fputs
#ifdef AUTO
#define IS_AUTO 1
#else
#define IS_AUTO 0
#endif
#ifdef LAZY
#define IS_LAZY 1
#else
#define IS_LAZY 0
#endif
static int cur=-1,over;
static void *rp(int i){ switch(i){
#define RP(i,n) case i: return (void*)GDO_RAWPTR_##n;
  SYMS(RP) } return 0; }
static const int LD[]={
#define LDN(i,n) GDO_LOAD_##n,
  SYMS(LDN) };
static int all(void){ for(int i=0;i<NSYM;i++) if(!rp(i)) return 0; return 1; }
#ifdef __cplusplus
static char cb1[700],cb2[700]; static int n1,n2,which;
static void f1(const char *m){ n1++; strncpy(cb1,m,sizeof cb1-1); }
static void f2(const char *m){ n2++; strncpy(cb2,m,sizeof cb2-1); }
struct Cap : std::streambuf { int overflow(int c) override { if(c!=-1&&hx_nerr+1<sizeof hx_err){ hx_err[hx_nerr++]=c; hx_err[hx_nerr]=0; } return c; } std::streamsize xsputn(const char *s,std::streamsize n) override { for(long i=0;i<n;i++) overflow((unsigned char)s[i]); return n; } };
static gdo::dl *L;
#endif
/* one wrapper call with symbolic arguments */
static int wi; static unsigned char in[32]; static long lw; static int ia,ib; static char ch; static unsigned char uc; static double dx; static const char *cp; static char area[4]; static unsigned long outv; static double outd;
static int callit(void){
#if SET==4
  switch(wi){ case 0: outv=(unsigned)W(add)(ia,ib); break; case 1: W(put)(area+1,ch); break; case 2: outd=W(mix)(dx,uc,cp,lw); break; case 3: outv=(unsigned long)W(cb)(someint,ia); break; }
#elif SET==5
  if(wi==0) outv=(unsigned)W(vsum)(ia,ib,cp,lw); else outv=(unsigned)W(add)(ia,ib);
#else
  if(wi==0){ struct small s; s.a=ia; s.b=ch; struct small r=W(flip)(s); outv=(unsigned)r.a|(unsigned long)(unsigned char)r.b<<32; } else { struct large s; memset(&s,0,sizeof s); s.v[0]=lw; s.v[1]=ib; s.v[3]=~lw; struct large r=W(blow)(ia,s); outv=r.v[0]; sym_assert(r.v[3]==~ret8,"the result differs"); }
#endif
  return 0; }
static void prepare(void){
  sym_bytes(in,32,"args"); memcpy(&ia,in,4); memcpy(&ib,in+4,4); memcpy(&lw,in+8,8); memcpy(&dx,in+16,8); ch=in[24]; uc=in[25]; cp=sym_choice(2,"pointer")?area+2:0; sym_bytes(&ret8,8,"result"); sym_bytes(&retd,8,"dresult");
  for(int i=0;i<NSYM;i++) hx_calls[i]=hx_hooks[i]=0; for(int i=0;i<4;i++) got[i]=0; got[2]=(unsigned)ia; got[3]=(unsigned)ib; hook_early=hook_wrong=0; outv=0; outd=0; hx_opens=hx_closes=hx_lookups=0; hx_cause=0; hx_nerr=0; hx_err[0]=0; }
static void reached(void){ /* it came back: the function was called, exactly once, with the arguments */
  for(int i=0;i<NSYM;i++){ sym_assert(hx_calls[i]==(i==wi),i==wi?"the function is not called exactly once":"another function is called"); 
#ifdef HOOKS
    int hk=SET==4?(wi<=1):wi==1; sym_assert(hx_hooks[i]==(i==wi&&hk),"the hook does not run exactly once"); 
#endif
  }
  sym_assert(!hook_early,"the hook runs after the function"); sym_assert(!hook_wrong,"the hook is given other arguments"); unsigned long r=(unsigned)ret8;
#if SET==4
  switch(wi){ case 0: sym_assert(got[0]==(unsigned)ia&&got[1]==(unsigned)ib,"an argument differs"); sym_assert(outv==r,"the result differs"); break;
    case 1: sym_assert(got[0]==(unsigned long)(area+1)&&got[1]==(unsigned char)ch,"an argument differs"); break;
    case 2: sym_assert(got[0]==bits(dx)&&got[1]==uc&&got[2]==(unsigned long)cp&&got[3]==(unsigned long)lw,"an argument differs"); sym_assert(bits(outd)==bits(retd),"the result differs"); break;
    default: sym_assert(got[0]==(unsigned long)someint&&got[1]==(unsigned)ia,"an argument differs"); sym_assert(outv==ret8,"the result differs"); }
#elif SET==5
  if(wi==0) sym_assert(got[0]==(unsigned)ia&&got[1]==(unsigned)ib&&got[2]==(unsigned long)cp&&got[3]==(unsigned long)lw,"an argument differs"); else sym_assert(got[0]==(unsigned)ia&&got[1]==(unsigned)ib,"an argument differs"); sym_assert(outv==r,"the result differs");
#else
  if(wi==0){ sym_assert(got[0]==(unsigned)ia&&got[1]==(unsigned char)ch,"an argument differs"); sym_assert(outv==(ret8&0xfffffffffful),"the result differs"); } else { sym_assert(got[0]==(unsigned)ia&&got[1]==(unsigned long)lw&&got[2]==(unsigned long)(long)ib&&got[3]==~(unsigned long)lw,"an argument differs"); sym_assert(outv==ret8,"the result differs"); }
#endif
}
/* the message that was given to the user */
static const char *message(void){
#ifdef HX_WIN
  sym_assert(hx_bufs==0,"the buffer of a system message is not freed");
#ifdef GDO_USE_MESSAGE_BOX
  sym_assert(hx_boxes==BOXES,"not exactly one message box"); hx_boxes=0;
#endif
#endif
#ifdef __cplusplus
  sym_assert(n1+n2<=1,"more than one message");
  if(which==1){ sym_assert(n1==1&&n2==0&&hx_nerr==0,"the callback in use is not called"); return cb1; } if(which==2){ sym_assert(n2==1&&n1==0&&hx_nerr==0,"the callback in use is not called"); return cb2; } sym_assert(n1+n2==0,"a callback that is not in use is called");
#endif
#ifndef GDO_USE_MESSAGE_BOX
  sym_assert(hx_nerr>0&&hx_err[hx_nerr-1]=='\n',"the message is not a line of its own");
#endif
  return hx_err; }
static void call(void){
  wi=sym_choice(NSYM,"function"); prepare(); int before[NSYM],was=cur; for(int i=0;i<NSYM;i++) before[i]=rp(i)!=0; int seen=hx_sym[wi];
#ifndef __cplusplus
  int ex0=hx_nexit;
#endif
#ifdef __cplusplus
  n1=n2=0; 
#endif
  int r=hx_try(callit);
  if(r==-1){ int l=-1; for(int i=0;i<hx_nlib;i++) if(hx_live[i]) l=i; if(was<0) cur=l; reached(); sym_assert(rp(wi)!=0,"called without a pointer"); sym_assert(hx_closes==0,"a successful call closes the library"); sym_assert(hx_nerr==0,"a successful call prints something");
#ifdef __cplusplus
    sym_assert(n1+n2==0,"a successful call reports something");
#endif
    if(before[wi]){ sym_assert(hx_opens==0&&hx_lookups==0,"something is loaded again"); 
#ifndef __cplusplus
      sym_assert(hx_nexit==ex0,"something is registered again");
#endif
      sym_cover("direct"); return; }
    sym_assert(IS_AUTO,"a symbol is loaded although auto-loading is off"); sym_assert(hx_opens==(was<0),"the library is not opened exactly once"); if(was<0) sym_assert(strcmp(hx_file,LIB)==0,"another library is opened"); if(was<0) sym_assert(hx_flags==FL0&&!hx_ns,"other flags");
    for(int i=0;i<NSYM;i++) if(IS_LAZY&&i!=wi) sym_assert((rp(i)!=0)==before[i],"another symbol is loaded or unloaded"); if(IS_LAZY) sym_assert(hx_lookups==1&&hx_sym[wi]==seen+1,"not exactly the one symbol is looked up"); else sym_assert(all(),"not all symbols are loaded"); sym_cover("autoloaded"); return; }
  for(int i=0;i<NSYM;i++) sym_assert(hx_calls[i]==0&&hx_hooks[i]==0,"something is called although the symbol is missing");
  sym_assert(!before[wi],"a loaded symbol is not called"); const char *m=message(); size_t n=strlen(m); sym_assert(n>0,"no message"); sym_assert(strstr(m,hx_names[wi])!=0,"the message does not name the symbol");
  if(!IS_AUTO){ sym_assert(r==134,"not aborted"); sym_assert(hx_opens==0&&hx_lookups==0,"something is loaded although auto-loading is off"); sym_cover("aborted"); over=1; return; }
  sym_assert(r==1,"wrong exit status"); sym_assert(hx_cause!=0,"exits although nothing failed"); sym_assert(hx_opens==(was<0),"the library is not opened exactly once"); sym_cover("exited");
#ifdef __cplusplus
  sym_assert(strstr(m,hx_cause)!=0,"the message does not contain the cause");
#else
  if(hx_lookups==0) sym_assert(hx_closes==0,"closed although it was not opened"); else sym_assert(hx_closes==1,"the library is not released exactly once"); for(int i=0;i<NSYM;i++) sym_assert(rp(i)==0,"pointers are left"); sym_assert(strstr(m,hx_cause)!=0,"the message does not contain the cause");
#endif
  over=1; }
static void hx_step(unsigned op){
  hx_cause=0;
  switch(op){
  case 0: call(); return;
#ifdef __cplusplus
  case 1: L->load("libother.so"); break; case 2: L->load_all_symbols(); break; case 3: L->load_symbol(LD[sym_choice(NSYM,"which")]); break; case 4: L->free(); break; case 5: L->free(true); if(cur>=0) hx_live[cur]=0; break;
  case 6: which=sym_choice(3,"callback"); gdo::dl::message_callback(which==1?f1:which==2?f2:nullptr); break;
#else
  case 1: gdo_load_lib_name(TX("libother.so")); break; case 2: gdo_load_all_symbols(); break; case 3: gdo_load_symbol(LD[sym_choice(NSYM,"which")]); break; case 4: gdo_free_lib(); break; case 5: gdo_force_free_lib(); if(cur>=0) hx_live[cur]=0; break;
#endif
  }
  cur=-1; for(int i=0;i<hx_nlib;i++) if(hx_live[i]) cur=i; }
#ifdef __cplusplus
#define NOP 7
extern "C"
#else
#define NOP 6
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init(); static Cap cap; std::cerr.rdbuf(&cap); alignas(gdo::dl) static char room[sizeof(gdo::dl)]; L=new(room) gdo::dl("libother.so");
#endif
  for(int i=0;i<K&&!over;i++) hx_step(i==K-1?0:sym_choice(NOP,"op"));
#ifndef __cplusplus
  if(IS_AUTO&&!over){ hx_closes=0; while(hx_nexit) hx_exitfn[--hx_nexit](); }
#endif
}
