// C01, C02, C03: the C API
#if PROP==3
#define HX_MSG(what) new_msg()
static const char *new_msg(void);
#endif
#if PROP!=3
#define HX_SNPRINTF
#endif
#if PROP==3&&defined(HX_WIN)&&HX_WIN==1
#define HX_CODE() wcode()
#define HX_TEXT(id) wtext(id)
static unsigned wcode(void); static const char *wtext(unsigned);
#endif
#include "dl.h"
#include "sets.h"
#ifdef HX_WIN
#include "win.h"
static char hx_nb[2][8300]; static int hx_nbi; /* back to narrow characters */
static const char *NX(const hx_char *s){ if(!s||sizeof(hx_char)==1) return (const char*)s; char *o=hx_nb[hx_nbi++&1]; size_t i=0; do { sym_assert(i<8300,"harness: long string"); sym_assert((unsigned)s[i]<256,"a character is widened wrongly"); o[i]=(char)s[i]; } while(s[i++]); return o; }
#define DEFFLAGS (HX_WIN==1?0:RTLD_LAZY)
#else
#define TX(s) (s)
#define NX(s) (s)
#define DEFFLAGS PLAT_FLAGS
#endif
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#ifndef HX_DISABLE_ALIASING
#define GDO_DISABLE_ALIASING
#endif
#include "plat.h"
#ifdef BODY
#include "gdo.c"
#else
#include "gdo.h"
#endif
#ifndef _GNU_SOURCE
int hx_dladdr(const void *a,Dl_info *i){ return 0; }
#endif
#undef exit
#undef abort
#ifdef HX_WIN
#define NONS 1
#else
#define NONS PLAT_NONS
#endif
static int cur=-1,reg,wasreg; static void *ptr[NSYM]; static char noerr[64];
static void *rp(int i){ switch(i){
#define RP(i,n) case i: return (void*)GDO_RAWPTR_##n;
  SYMS(RP) } return 0; }
static const int LD[]={
#define LDN(i,n) GDO_LOAD_##n,
  SYMS(LDN) };
static int all(void){ for(int i=0;i<NSYM;i++) if(!rp(i)) return 0; return 1; }
static int any(void){ for(int i=0;i<NSYM;i++) if(rp(i)) return 1; return 0; }
static char nm[SLEN+NLEN+2];
#if defined(HX_WIN)&&HX_WIN==1
#define WIN1 1
#ifdef GDO_CONVERT_FILENAME
#define CONV 1
#else
#define CONV 0
#endif
static void want_file(const char *f){ size_t n=strlen(f); sym_assert(strlen(hx_file)==n,"opened with another name"); for(size_t i=0;i<n;i++) sym_assert((f[i]=='/'&&hx_file[i]=='\\')||(f[i]!='/'&&hx_file[i]==f[i]),"opened with another name"); sym_assert(hx_wide==(CONV||sizeof(hx_char)>1),"the other kind of characters is used"); }
#else
#define WIN1 0
#define CONV 0
static void want_file(const char *f){ sym_assert(strcmp(hx_file,f)==0,"opened with another name"); }
#endif
/* a name: null, empty or symbolic */
static const char *name(void){ unsigned k=sym_choice(3,"name"); if(k==0) return 0; if(k==1) return ""; memset(nm,0,sizeof nm); sym_bytes(nm,SLEN,"file"); sym_assume(nm[0]!=0); return nm; }
#if PROP==3
#ifndef MLEN
#define MLEN 2
#endif
#define BUFLEN 8192
static char msgs[2][BUFLEN+8]; static size_t msglen[2]; static int nmsg; static char *last;
static const char *new_msg(void){
#if defined(HX_WIN)&&HX_WIN==1 /* a system message is never empty */
  char *m=msgs[nmsg++&1]; unsigned k=sym_choice(2,"msg"); last=m; if(k==0){ memset(m,0,4); sym_bytes(m,MLEN,"text"); sym_assume(m[0]!=0); } else strcpy(m,"100%s %n%"); return m; }
static unsigned wcode(void){ return 1000+((nmsg-1)&1); }
static const char *wtext(unsigned id){ sym_assert(id==0||id==6||id==123||id==87||id==1168||id==1000||id==1001,"the message of an unknown code is asked for"); return id==0?"all is well":id==6?"invalid handle":id==123?"invalid name":id==87?"bad parameter":id==1168?"nothing there":msgs[id-1000]; }
static const char *unused(void){ char *m=0; unsigned k=2;
#else
  char *m=msgs[nmsg++&1]; unsigned k=sym_choice(BIG?7:3,"msg"); last=m;
#endif
  switch(k){ case 0: memset(m,0,4); sym_bytes(m,MLEN,"text"); break; /* may be empty */ case 1: strcpy(m,"100%s %n%"); break; case 2: last=0; return 0; 
    default: { size_t n=BUFLEN-2+(k-3); memset(m,'x',n); m[n]=0; sym_bytes(m+n-3,2,"end"); m[n-3]|=1; m[n-2]|=1; } }
  if(!m[0]) last=0;
  return m; }
static void want_noerr(void){ const char *e=NX(gdo_last_error()); sym_assert(e!=0,"null error string"); sym_assert(strcmp(e,noerr)==0,"an error is left after a call that succeeded"); }
static const char *want_err(const char *cause,const char *cause2){ const char *e=NX(gdo_last_error()); sym_assert(e!=0,"null error string"); size_t n=0; while(n<BUFLEN&&e[n]) n++; sym_assert(n<BUFLEN,"the error string is not terminated"); sym_assert(n>0,"the error string is empty");
  sym_assert(strcmp(e,noerr)!=0,"a failed call says that there was no error"); if(cause) sym_assert(strstr(e,cause)!=0||(cause2&&strstr(e,cause2)),"the error does not name the cause"); return e; }
#if defined(HX_WIN)&&HX_WIN==1
static void want_link(void){ char code[24]; const char *e=want_err(0,0),*w=last; sym_assert(last!=0,"failed although nothing failed"); if(hx_mute){ strcpy(code,"error code: 1000"); code[15]+=(nmsg-1)&1; w=code; sym_cover("nomessage"); } size_t n=strlen(w),l=strlen(e); sym_assert(l>=n,"the system's message is missing"); sym_assert_eq_mem(e+l-n,w,n,"the system's message differs");
  if(l>n){ sym_assert(l>n+2&&e[l-n-2]==':'&&e[l-n-1]==' ',"something in front of the message"); char pre[300]; sym_assert(l-n<sizeof pre,"harness: long message"); memcpy(pre,e,l-n-2); pre[l-n-2]=0; static const char *const stale[]={"empty","already","no library","atexit","unknown",0}; for(int i=0;stale[i];i++) sym_assert(!strstr(pre,stale[i]),"a stale message"); }
  sym_cover("message"); const char *e2=NX(gdo_last_error()); sym_assert(strlen(e2)==l,"the message changes when asked again"); sym_assert_eq_mem(e2,e,l,"the message changes when asked again"); }
#else
static void want_link(void){ if(!last){ sym_cover("nomessage"); want_err(0,0); return; } const char *e=want_err(0,0); size_t n=strlen(last); if(n>BUFLEN-1) n=BUFLEN-1; sym_assert(strlen(e)==n,"the linker's message is cut"); sym_assert_eq_mem(e,last,n,"the linker's message differs"); sym_cover("message"); }
#endif
#endif
#if CONV
#define CONVFAIL (hx_convfail>0)
#define NOCONV hx_convfail=0
#else
#define CONVFAIL 0
#define NOCONV (void)0
#ifndef HX_WIN
#define hx_mute 0
#endif
#endif
static int seen[NSYM];
static void begin(void){ hx_opens=hx_closes=hx_lookups=0; NOCONV; for(int i=0;i<NSYM;i++) seen[i]=hx_sym[i]; 
#if PROP==3
  last=0; nmsg=0;
#endif
}
/* state after every call */
static void state(void){
#ifdef HX_WIN
  sym_assert(hx_bufs==0,"the buffer of a system message is not freed");
#endif
#if PROP==1
  sym_assert(gdo_lib_is_loaded()==(cur>=0),"loaded predicate differs"); sym_assert(hx_any()==(cur>=0),"a handle is leaked or lost"); if(cur>=0) sym_assert(hx_live[cur],"the handle in use is closed");
#elif PROP==2
  for(int i=0;i<NSYM;i++){ sym_assert(rp(i)==0||(cur>=0&&rp(i)==HX_ADDR(cur,i)),"a pointer is not what the linker returned for it"); sym_assert(rp(i)==ptr[i],"a pointer was changed by something else than its lookup"); }
  sym_assert(gdo_all_symbols_loaded()==all(),"all_symbols_loaded differs"); sym_assert(gdo_no_symbols_loaded()==!any(),"no_symbols_loaded differs"); sym_assert(gdo_any_symbol_loaded()==any(),"any_symbol_loaded differs");
#endif
}
static void one(unsigned r,bool rv,const int *before){ (void)before;
#if PROP==1
  sym_assert(hx_opens==0&&hx_closes==0,"a symbol call opens or closes");
#elif PROP==2
  if(cur<0||r==NSYM){ sym_assert(!rv,"succeeds without a library or symbol"); sym_assert(hx_lookups==0,"lookup without a library or symbol"); sym_cover("unknown"); }
  else { sym_assert(hx_lookups==(before[r]?0:1),"wrong number of lookups"); sym_assert(hx_sym[r]-seen[r]==hx_lookups,"another symbol is looked up"); if(!before[r]) ptr[r]=rp(r); sym_assert(rv==(rp(r)!=0),"result differs from the pointer"); sym_cover(rv?"found":"notfound"); }
#endif
  }
static int hx_step(int op){
  const char *f; int flags=DEFFLAGS,ns=0,was=cur,before[NSYM]; bool rv; for(int i=0;i<NSYM;i++) before[i]=rp(i)!=0;
#ifdef FLAGS
  flags=FLAGS;
#endif
  begin();
  switch(op){
  case 0: case 1: case 2: case 3: case 4: { /* load */
    f="libdef.so";
    if(op<=2) f=name(); if(op==0){ unsigned char b[4]; sym_bytes(b,4,"flags"); flags=b[0]|b[1]<<8|b[2]<<16|(int)((unsigned)b[3]<<24); ns=sym_choice(2,"ns"); }
    switch(op){ case 0: rv=gdo_load_lib_args(TX(f),flags,ns); break; case 1: rv=gdo_load_lib_name(TX(f)); break; case 2: rv=gdo_load_lib_name_and_symbols(TX(f)); break;
      case 3: rv=gdo_load_lib(); break; default: rv=gdo_load_lib_and_symbols(); }
    bool opened=false; if(cur<0&&f&&*f){ if(hx_nlib&&hx_live[hx_nlib-1]){ opened=true; cur=hx_nlib-1; } }
    if(opened) for(int i=0;i<NSYM;i++) ptr[i]=0;
#if PROP==1
    if(was>=0){ sym_assert(!rv,"a second load succeeds"); sym_assert(hx_opens==0,"opened while a library is loaded"); sym_cover("again"); }
    else if(!f||!*f){ sym_assert(!rv,"an empty name is loaded"); sym_assert(hx_opens==0,"an empty name is opened"); sym_cover("empty"); }
    else if(CONVFAIL){ sym_assert(!rv,"succeeds although the name cannot be converted"); sym_assert(hx_opens==0,"opened although the name cannot be converted"); sym_cover("unconverted"); }
    else { sym_assert(hx_opens==1,"not opened exactly once"); want_file(f); sym_assert(hx_flags==flags,"opened with other flags"); sym_assert(hx_ns==(NONS?0:ns),"opened in the wrong namespace"); sym_cover(opened?"loaded":"failed");
      if(op==2||op==4) sym_assert(rv==(opened&&all()),"load result differs"); else sym_assert(rv==opened,"load result differs"); }
    sym_assert(hx_closes==0,"a load closes something");
#elif PROP==2
    if(op==2||op==4){ if(opened){ sym_assert(rv==all(),"result of loading all symbols differs"); for(int i=0;i<NSYM;i++){ sym_assert(hx_sym[i]-seen[i]<=1,"a symbol is looked up twice"); ptr[i]=rp(i); sym_assert(!ptr[i]||hx_sym[i]>seen[i],"a pointer without a lookup"); } } else { sym_assert(!rv,"loading symbols without a library succeeds"); sym_assert(hx_lookups==0,"lookup without a load"); } }
    else sym_assert(hx_lookups==0,"loading a library looks up symbols");
#elif PROP==3
    if(rv) want_noerr(); else if(was>=0) want_err("already",0); else if(!f||!*f) want_err("empty",0); else if(CONVFAIL){ want_err("convert",0); want_err(hx_mute?"code: 123":"invalid name",0); sym_cover("unconverted"); } else want_link();
#endif
    break; }
  case 5: case 6: { /* free */
    rv=true; if(op==5) rv=gdo_free_lib(); else gdo_force_free_lib();
    bool closed=was<0||!hx_live[was];
#if PROP==1
    sym_assert(hx_opens==0,"a release opens something"); sym_assert(hx_closes==(was>=0),"not closed exactly once"); if(op==5) sym_assert(rv==closed,"result of the release differs"); sym_cover(was<0?"nothing":closed?"released":"notclosed");
    if(op==6&&was>=0&&!closed){ hx_live[was]=0; closed=true; } /* given up */
#endif
    if(closed||op==6){ cur=-1; if(was>=0) hx_live[was]=0; for(int i=0;i<NSYM;i++) ptr[i]=0; }
#if PROP==1
    for(int i=0;i<NSYM;i++) sym_assert((rp(i)!=0)==(cur>=0&&before[i]),cur>=0?"a failed release changes pointers":"a pointer is left after the release");
#elif PROP==2
    sym_assert(hx_lookups==0,"a release looks up symbols"); for(int i=0;i<NSYM;i++) sym_assert(cur>=0||!rp(i),"a pointer is left after the release"); 
#elif PROP==3
    if(op==5){ if(rv) want_noerr(); else want_link(); }
#endif
    break; }
  case 7: { rv=gdo_enable_autorelease();
#if PROP==1
    if(reg){ sym_assert(rv,"registered but says it is not"); sym_assert(hx_nexit==wasreg,"registered twice"); } else { sym_assert(rv==(hx_nexit==wasreg+1),"registration is misreported"); if(rv){ reg=1; wasreg++; sym_cover("registered"); } }
#elif PROP==3
    if(rv) want_noerr(); else want_err("atexit","register");
#endif
    break; }
  case 8: { rv=gdo_load_all_symbols();
#if PROP==1
    sym_assert(hx_opens==0&&hx_closes==0,"a symbol call opens or closes");
#elif PROP==2
    sym_assert(rv==all(),"result differs from the pointers"); if(cur<0) sym_assert(!rv&&!hx_lookups,"lookup without a library"); for(int i=0;i<NSYM;i++){ sym_assert(hx_sym[i]-seen[i]<=1,"a symbol is looked up twice"); if(hx_sym[i]>seen[i]) ptr[i]=rp(i); } sym_cover(rv?"all":"notall"); 
#elif PROP==3
    if(rv) want_noerr(); else if(cur<0) want_err("library",0); else want_link();
#endif
    break; }
  case 9: { int n; unsigned k=sym_choice(NSYM+1,"number"); if(k<NSYM) n=LD[k]; else {
#if PROP==3
      static const int N[]={-1,GDO_ENUM_LAST,GDO_ENUM_LAST+1,2147483647,-2147483647-1}; n=N[sym_choice(5,"num")]; 
#else
      unsigned char b[4]; sym_bytes(b,4,"num"); n=b[0]|b[1]<<8|b[2]<<16|(int)((unsigned)b[3]<<24);
#endif
      for(int i=0;i<NSYM;i++) sym_assume(n!=LD[i]); }
    rv=gdo_load_symbol(n); one(k,rv,before); 
#if PROP==3
    if(rv) want_noerr(); else if(cur<0) want_err("library",0); else if(k<NSYM) want_link(); else { char t[24]; snprintf(t,sizeof t,"%d",n); want_err(t,0); sym_cover("number"); }
#endif
    break; }
  case 10: { unsigned k=sym_choice(NSYM+3,"symname"),r=NSYM; const char *s=0; if(k<NSYM){ s=hx_names[k]; r=k; } else if(k==NSYM) s=""; else if(k==NSYM+1){ memset(nm,0,sizeof nm); sym_bytes(nm,NLEN,"symbol"); sym_assume(nm[0]!=0); s=nm; for(int i=0;i<NSYM;i++) if(strcmp(s,hx_names[i])==0) r=i; }
    rv=gdo_load_symbol_name(s); one(r,rv,before);
#if PROP==3
    if(rv) want_noerr(); else if(cur<0) want_err("library",0); else if(r<NSYM) want_link(); else if(!s||!*s) want_err("empty",0); else { want_err(s,0); sym_cover("name"); }
#endif
    break; }
  case 11: { const char *p=NX(gdo_library_path());
#if PROP==1
    sym_assert(hx_opens==0&&hx_closes==0,"a path query opens or closes"); if(cur<0) sym_assert(p==0,"a path without a library"); else if(PLAT&&PLAT!=4&&!any()) sym_assert(p==0,"a path although no symbol is loaded"); else { sym_assert(p!=0,"no path"); char w[8]; strcpy(w,"/lib"); w[4]='0'+cur; w[5]=0; sym_assert(strcmp(p,w)==0,"the path belongs to another library"); sym_cover("path"); }
#elif PROP==3
    if(p) want_noerr(); else if(cur<0) want_err("library",0); else if(PLAT){ sym_assert(PLAT!=4&&!any(),"no path"); want_err("symbols",0); }
#endif
    (void)p; break; }
  }
  state(); return 0; }
#ifndef OPC
#ifdef OPS
static const int ops[]={OPS};
#define OPC ops[sym_choice(sizeof ops/sizeof*ops,"op")]
#else
#define OPC sym_choice(12,"op")
#endif
#endif
void harness_main(void){
#if defined(HX_WIN)&&HX_WIN==1&&PROP==3
  hx_mute=sym_choice(2,"mute");
#endif
  const char *e=NX(gdo_last_error()); sym_assert(e&&*e,"no error string"); sym_assert(strlen(e)<sizeof noerr,"harness: long string"); strcpy(noerr,e); state();
#if PROP==3&&defined(START)
  hx_step(START); sym_assume(cur>=0);
#endif
  for(int i=0;i<K;i++) hx_step(OPC);
#if PROP==1
  /* the program ends */
  if(reg){ begin(); int was=cur; while(hx_nexit) hx_exitfn[--hx_nexit](); sym_assert(hx_opens==0&&hx_closes==(was>=0),"the exit function does not release the library"); if(was>=0) hx_live[was]=0; cur=-1; for(int i=0;i<NSYM;i++) ptr[i]=0; state(); sym_cover("exit"); }
#endif
}
