// C30: two loaders with different prefixes in one program
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <cstdlib>
#include <new>
#endif
#include "sym.h"
static int who,owner[8],nclose[8]; static int mine(int w,int s); static void *hx_at(int l,int s);
#define HX_ADDR(l,s) hx_at(l,s)
#define HX_OPEN() hx_may_open()
#define HX_FIND(l,s) (sym_assert(owner[l]==who,"a symbol is looked up in the library of the other loader"),sym_assert(mine(who,s),"a symbol of the other loader is looked up"),sym_choice(2,"find"))
#define HX_CLOSE() (sym_assert(who==2||hx_exits||owner[l]==who,"the library of the other loader is closed"),nclose[l]++,CLOSES==1?1:sym_choice(2,"close"))
static int hx_may_open(void);
#ifndef CLOSES
#define CLOSES 2
#endif
#include "dl.h"
#ifdef __cplusplus
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
/* A has foo and one, B has uno and, if SHARED, foo */
const char *const hx_names[]={"foo","one","uno",
#ifdef ARR
"arr",
#endif
0};
static int mine(int w,int s){ return s==(SHARED?0:-1)||s==3||(w==0?(s==1||s==0):(s==2)); }
static int calls[8],arg; static const char *deflib[2]={"liba.so","libb.so"};
static int hx_may_open(void){ if(!sym_choice(2,"open")) return 0; owner[hx_nlib]=who; return 1; }
#define FN(l) static int fn##l(int a){ calls[l]++; arg=a; return a+1; }
FN(0) FN(1) FN(2) FN(3) FN(4) FN(5) FN(6) FN(7)
static void *hx_at(int l,int s){ static void *const f[]={(void*)fn0,(void*)fn1,(void*)fn2,(void*)fn3,(void*)fn4,(void*)fn5,(void*)fn6,(void*)fn7}; return s==1||s==3?(void*)hx_cell[l][s]:f[l]; }
struct state { void *ptr[3]; int loaded,all,no,any; char err[48]; const void *x; };
static int reg[2];
static void txt(char *d,const char *s){ int i=0; if(s) while(i<47&&s[i]){ d[i]=s[i]; i++; } d[i]=0; }
#include HA
#include HB
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define SIDE 0
#define LO aa
#define UP AA
#define SF FA
#include "multi_side.h"
#undef SIDE
#undef LO
#undef UP
#undef SF
#define SIDE 1
#define LO bb
#define UP BB
#define SF FB
#include "multi_side.h"
static void snap(int w,struct state *s){ memset(s,0,sizeof *s); if(w) snap1(s); else snap0(s); }
static void keep(int w,const struct state *o){ struct state s; snap(w,&s); for(int i=0;i<3;i++) sym_assert(s.ptr[i]==o->ptr[i],"a pointer of the other loader is changed"); sym_assert(s.loaded==o->loaded&&s.all==o->all&&s.no==o->no&&s.any==o->any&&s.x==o->x,"the other loader's state is changed"); sym_assert_eq_mem(s.err,o->err,sizeof s.err,"the other loader's message is changed"); }
static void own(int w){ struct state s; snap(w,&s); for(int i=0;i<3;i++) if(s.ptr[i]){ int ok=0; for(int l=0;l<hx_nlib;l++) if(owner[l]==w&&hx_live[l]&&s.ptr[i]==hx_at(l,i)) ok=1; sym_assert(mine(w,i)&&ok,"a pointer into something else than the loader's library"); } }
static int live(int w){ int n=0; for(int l=0;l<hx_nlib;l++) n+=owner[l]==w&&hx_live[l]; return n; }
static int w_,op_;
static int step(void){ if(w_) do1(op_); else do0(op_); return 0; }
static void run(void){
  int left=0;
  for(int k=0;k<K&&!left;k++){ w_=who=sym_choice(2,"who"); struct state o; snap(1-w_,&o); op_=sym_choice(w_?NOPS1:NOPS0,"op"); int n0=hx_nlib,q=hx_nexit; hx_opens=0;
    int c=hx_try(step); left=c!=-1;
    if(hx_nexit>q) reg[w_]=1; if(hx_opens) sym_assert(strcmp(hx_file,deflib[w_])==0||(hx_file[1]=='a'+w_&&!hx_file[2]),"the other loader's library name is used");
    if(!left){ keep(1-w_,&o); own(w_); own(1-w_); sym_cover(w_?"second":"first"); if(o.loaded&&hx_nlib>n0) sym_cover("both"); } else sym_cover("left"); }
  if(!left){ int n[2]; for(int w=0;w<2;w++) n[w]=live(w); who=2; while(hx_nexit) hx_exitfn[--hx_nexit]();
    for(int w=0;w<2;w++){ sym_assert(reg[w]?CLOSES==2||live(w)==0:live(w)==n[w],reg[w]?"a library is not closed at exit":"a library of the other loader is closed at exit"); if(reg[w]&&n[w]) sym_cover("exit"); who=w; if(w) end1(); else end0(); who=2; }
    if(CLOSES==1) sym_assert(live(0)==0&&live(1)==0,"a library is still open"); } }
#ifdef __cplusplus
extern "C"
#endif
void harness_main(void){
#ifdef __cplusplus
  hx_init();
#endif
  start0(); start1(); run(); }
