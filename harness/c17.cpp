// C17: parameter names are read, skipped or created consistently
#include "ref.h"
static const char W[]="abiZ_9";
struct P { std::string src,want,name; bool bad; };   // source text, text expected in the output, name passed on
static P read_param(unsigned k,const std::string &n,const std::string &t){
  switch(k){
    case 0: return {t+" "+n,t+" "+n,n,false};
    case 1: return {"const "+t+" * "+n,"const "+t+" * "+n,n,false};
    case 2: return {"const "+t+" * "+n+"[ 3 ][]","const "+t+" * "+n+"[3][]",n,false};
    case 3: return {"unsigned "+t+" * ( * "+n+" )(int, "+t+" x)","unsigned "+t+" * (*"+n+")(int, "+t+" x)",n,false};
    case 4: return {"...","...","",false};
    case 5: return {t,"","",true};
    case 6: return {t+" *","","",true};
    case 7: return {"* "+n,"","",true};
    case 8: return {t+" (*)(int)","","",true};
    case 9: return {t+" * * const "+n,t+" * * const "+n,n,false};
    case 10: return {"struct "+t+" *"+n+"[]","struct "+t+" *"+n+"[]",n,false};
    default: return {"void (*"+n+")(void (*q)(int), ...)","void (*"+n+")(void (*q)(int), ...)",n,false}; } }
static P create_param(unsigned k,const std::string &n,const std::string &t,const std::string &a){
  switch(k){
    case 0: return {t,t+" "+a,a,false};
    case 1: return {"const "+t+" *","const "+t+" * "+a,a,false};
    case 2: return {t+"[ 3 ][]",t+" "+a+"[3][]",a,false};
    case 3: return {"unsigned "+t+" * ( * )(int, "+t+" x)","unsigned "+t+" * (*"+a+")(int, "+t+" x)",a,false};
    case 4: return {"...","...","",false};
    case 5: return {"long "+t+" (*"+n+")("+t+", ...)","long "+t+" (*"+a+")("+t+", ...)",a,false};
    case 6: return {"unsigned "+t+" const","unsigned "+t+" const "+a,a,false};
    case 7: return {"* "+t,"","",true};
    case 8: return {t+" *[]",t+" * "+a+"[]",a,false};
    default: return {"struct "+t+" * const *","struct "+t+" * const * "+a,a,false}; } }
#ifdef DEEP // long types, many dimensions, many parameters of a function pointer
static P deep_param(unsigned mode,const std::string &n,const std::string &t,const std::string &a){
  static const char *const Q[]={"unsigned ","const ","struct ","long "}; std::string ty; unsigned nt=sym_choice(DEEP+1,"nt"); for(unsigned i=0;i<nt;i++) ty+=Q[(i+nt)%4]; ty+=t;
  unsigned st=sym_choice(DEEP+1,"stars"); for(unsigned i=0;i<st;i++) ty+=i%2?" * const":" *";
  unsigned sh=sym_choice(3,"shape"); std::string nm=mode==1?a:n,sn=mode==1?"":n; P p; p.name=nm; p.bad=false;
  if(sh==0){ if(mode==1&&nt+st==0) ty="long "+ty; p.src=ty+(mode==1?"":" "+n); p.want=ty+" "+nm; return p; }
  std::string tail; unsigned c=sym_choice(DEEP+1,"parts");
  if(sh==1){ for(unsigned i=0;i<=c;i++) tail+=i==0&&sym_choice(2,"open")?"[]":i%2?"[N_1]":"[ 3 ]"; p.src=ty+" "+sn+tail; p.want=ty+" "+nm+tail; return p; }
  static const char *const A[]={"int","char * q","void (*z)(int, ...)","const unsigned long * const w"}; unsigned o=sym_choice(4,"first"); for(unsigned i=0;i<c;i++) tail+=(i?", ":"")+std::string(A[(o+i)%4]);
  if(mode==1&&sym_choice(2,"named")) sn=n;
  p.src=ty+" ( * "+sn+" )("+tail+")"; p.want=ty+" (*"+nm+")("+tail+")"; return p; }
#endif
extern "C" void harness_main(){
  h_file("t.tpl",R_TPL); std::string src,want,names; bool bad=false; unsigned cnt=0; std::string fn="f"+h_symset(1,W,"fn");
  unsigned mode=sym_choice(3,"mode"); bool any=false;
#ifdef MANY   // many parameters of few forms, the position of an unusual one varies
  unsigned np=MANY-3+sym_choice(4,"np"); unsigned at=sym_choice(np,"at"),k1=sym_choice(3,"k1"),k2=sym_choice(5,"k2"); std::string sy=h_symset(1,W,"n");
#elif defined(DEEP)
  unsigned np=1+sym_choice(2,"np");
#else
  unsigned np=sym_choice(PM+1,"np");
#endif
  for(unsigned i=0;i<np;i++){
#ifdef MANY
    std::string n="p"+std::to_string(i)+(i==at?sy:""),t="T"+(i==at?sy:std::to_string(i)); static const unsigned F[]={0,1,3,9,4}; unsigned kk=F[i==at?k2:k1];
#define KK(N) kk
#elif defined(DEEP)
    std::string n="p"+std::to_string(i),t=i||np==1?"T"+h_symset(1,W,"t"):"T";
#else
    std::string n="p"+std::to_string(i)+h_symset(i?1:2,W,"n"),t="T"+h_symset(1,W,"t");
#define KK(N) sym_choice(N,"k")
#endif
    P p; 
#ifdef DEEP
    cnt++; if(i+1==np) p=deep_param(mode,n,t,"a"+std::to_string(cnt)); else p=mode==1?create_param(0,n,t,"a1"):read_param(0,n,t);
#else
    if(mode==1){ unsigned k=KK(10); if(k==7&&!i) k=0; if(k!=4&&k!=7) cnt++; p=create_param(k,n,t,"a"+std::to_string(cnt)); } else { unsigned k=KK(12); if(k==7&&!i) k=6; p=read_param(k,n,t); } // `T f(*x' is no function
#endif
    if(mode==2){ p.bad=false; p.want=p.src; }
    src+=(i?", ":"")+p.src; want+=(i?", ":"")+p.want; if(!p.name.empty()){ names+=(any?", ":"")+p.name; any=true; } bad|=p.bad; }
  if(!np&&sym_choice(2,"void")){ std::string v=h_symset(4,"vVoOiIdD","v"); sym_assume((v[0]=='v')|(v[0]=='V')); sym_assume((v[1]=='o')|(v[1]=='O')); sym_assume((v[2]=='i')|(v[2]=='I')); sym_assume((v[3]=='d')|(v[3]=='D')); src=want=v; }
  if(mode==2) names="";
  static const char *const M[]={"-param=read","-param=create","-param=skip"};
  h_file("in.txt","int first(int zz1);\nchar * "+fn+"("+src+");\n");
  if(mode==1) h_file("in.txt","int first(int);\nchar * "+fn+"("+src+");\n");
  Run r=h_run({"in.txt","-template=t.tpl","-out=o.h",M[mode]}); h_observe("in",src); h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  if(!r_clean(r,"o.h")){ sym_cover("rejected"); h_assert(bad,"a function with usable parameters is rejected"); h_assert(r.err.find("`"+fn+"'")!=std::string::npos,"the error does not name the function"); return; }
  h_assert(!bad,"a parameter without a name is accepted"); sym_cover("accepted");
  auto s=r_syms(h_read("o.h")); h_assert(s.size()==2&&s[1].fn,"number of functions differs");
  h_assert_eq(s[0].names,mode==2?"":(mode==1?"a1":"zz1"),"names of the first function differ"); h_assert_eq(r_norm(s[0].args),mode==1?"int a1 ":"int zz1 ","parameters of the first function differ");
  h_assert_eq(s[1].sym,fn,"function name differs"); h_assert_eq(r_norm(s[1].type),"char * ","type differs");
  std::string g=r_norm(s[1].args); if(want.empty()&&g=="void ") g=""; h_assert_eq(g,r_norm(want),"parameters differ");
  if(mode!=2){ h_assert_eq(r_norm(s[1].names),r_norm(names),"names passed on differ"); }
}
