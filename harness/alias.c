// C29: the original names of the functions and objects
#ifdef __cplusplus
#include <iostream>
#include <string>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <cstdlib>
#endif
static void *hx_at(int,int);
#define HX_ADDR(l,s) hx_at(l,s)
#define HX_OPEN() 1
#define HX_FIND(l,s) 1
#define HX_CLOSE() 1
#include "dl.h"
#ifdef __cplusplus
namespace std { using ::hx_exit; using ::hx_abort; }
#endif
#include "types2.h"
const char *const hx_names[]={"fn","vf","num","str","arr","st","ps","names","grid",0};
#define NL 4
/* the libraries: two functions and seven objects each; sh: what the objects must hold */
struct mem { int num_,arr_[4],grid_[2][3]; pair_t st_,sp[2]; char *str_,*names_[2]; pair_t *ps_; char buf[8]; };
static struct mem re[NL],sh[NL]; static int fcall[NL],vcall[NL],fa,va,vb,fret; static char *fb;
#define FN(l) static int fn##l(int a,char *b){ fcall[l]++; fa=a; fb=b; return fret; } static void vf##l(pair_t p){ vcall[l]++; va=p.a; vb=p.b; }
FN(0) FN(1) FN(2) FN(3)
static void *hx_at(int l,int s){ static void *const f[]={(void*)fn0,(void*)fn1,(void*)fn2,(void*)fn3},*const v[]={(void*)vf0,(void*)vf1,(void*)vf2,(void*)vf3}; struct mem *m=&re[l]; void *const o[]={f[l],v[l],&m->num_,&m->str_,m->arr_,&m->st_,&m->ps_,m->names_,m->grid_}; return o[s]; }
static int symint(const char *n){ unsigned v; sym_bytes(&v,4,n); return (int)v; }
static int l_=-1;   /* the library in use */
static void same(void){ for(int l=0;l<NL;l++){ sym_assert_eq_mem(&re[l],&sh[l],sizeof re[l],l==l_?"an object of the library in use has another value":"an object of another library is changed"); } }
#define ADDR(a,b,m) sym_assert((const void*)(a)==(const void*)(b),m)
static char other[4]="abc"; static int x_,y_,i_,w_; static char *p_;
static int lastf(void){ for(int l=0;l<NL;l++) if(l!=l_) sym_assert(!fcall[l]&&!vcall[l],"a function of another library is called"); return fcall[l_]; }
#ifdef HPP
#include "gdo.hpp"
#else
#include "gdo.h"
#endif
#undef exit
#undef abort
#undef fprintf
#undef fputc
#undef fputs
#ifdef NOALIAS /* the names are not taken */
#if FMT==0 || FMT==1
#define U(n) GDO_RAWPTR_##n
#elif FMT==2
#define U(n) gdo_hndl.GDO_PTR_##n
#else
#define U(n) gdo::GDO_PTR_##n
#endif
#define UF(n) U(n)
#define UO(n) (*U(n))
static int num=77; static char *str=other; static int arr[3]={1,2,3}; struct names { int fn; char vf[7]; };
#else
#define UF(n) n
#define UO(n) n
#endif
#if FMT==1
static gdo::dl *lib;
static void load(void){ lib->load("lib"); lib->load_all_symbols(); } static void unload(void){ lib->free(true); }
#elif FMT==0
static void load(void){ sym_assert(gdo_load_lib_name_and_symbols("lib"),"not loaded"); } static void unload(void){ sym_assert(gdo_free_lib(),"not released"); }
#elif FMT==2
static void load(void){ sym_assert(!gdo_load_library_and_symbols("lib"),"not loaded"); } static void unload(void){ gdo_free_library(); }
#else
static void load(void){ gdo::load_library_and_symbols("lib"); } static void unload(void){ gdo::free_library(); }
#endif
#include "alias_use.h"
static void next(void){
#ifndef AUTO
  if(l_>=0) unload(); l_=hx_nlib; load();
#else
  if(l_>=0){ unload(); l_=hx_nlib; load(); } else { l_=0; use(0); } /* the first call of a function loads everything */
#endif
  sym_assert(hx_nlib==l_+1,"not exactly one library is opened"); }
static void run(void){
  for(int l=0;l<NL;l++){ struct mem *m=&re[l]; memset(m,0,sizeof *m); if(l<2){ m->num_=symint("num"); for(int i=0;i<4;i++) m->arr_[i]=symint("arr"); m->st_.a=symint("st"); m->st_.b=symint("st"); m->sp[0].a=symint("sp"); sym_bytes(m->buf,8,"buf"); m->grid_[1][0]=symint("grid"); } m->str_=m->buf; m->names_[0]=m->buf; m->names_[1]=m->buf+4; m->ps_=m->sp; sh[l]=*m; }
  next(); same();
  for(int k=0;k<K;k++){ unsigned op=sym_choice(NUSE+1,"op"); if(op==NUSE){ next(); sym_cover("next"); } else { use(op); sym_cover(uses[op]); } same(); }
  unload();
#ifdef NOALIAS
  sym_assert(num==77&&str==other&&arr[2]==3&&sizeof(struct names)>=8,"a name of the program is changed"); num++; (void)str;
#endif
}
#ifdef __cplusplus
extern "C"
#endif
void harness_main(void){
#if FMT==1
  hx_init(); alignas(gdo::dl) static char room[sizeof(gdo::dl)]; lib=new(room) gdo::dl; run();
#else
#ifdef __cplusplus
  hx_init();
#endif
  run();
#endif
}
