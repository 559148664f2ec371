// C19: Clang AST input yields the declared functions and variables exactly
#include "ref.h"
#ifdef FULL
#define PICK(n,name,x) sym_choice(n,name)
#else
#define PICK(n,name,x) ((x)%n)
#endif
static bool pre(const std::string &s,const std::string &p){ return s.size()>=p.size()&&s.compare(0,p.size(),p)==0; }
static std::string at(std::string s,const std::string &w){ size_t p=s.find('%'); if(p!=std::string::npos) s=s.substr(0,p)+w+s.substr(p+1); return s; }
static const char W[]="ab_";
// parameter types: `%' is where the name goes; what follows a `;' is the rest of the line
struct PT { const char *ty,*rest; };
static const PT P[]={{"int %",""},{"const char *%",""},{"void (*%)(int)",""},{"int (**%)(void)",""},{"int (*const %)(char *, ...)",""},{"int (*%)[3]",""},{"cb_t %",":'void (*)(const char *)'"},{"struct s %",""},{"int (*(*%)(int))(int)",""},{"char *restrict %",""},{"int (*(*%)[3])(int)",""},{"void (*const *%)(int)",""},{"_Atomic(int) *%",""},{"unsigned long long %",""}};
static const char *const R[]={"int","const char *","void","struct s *const *","_Atomic(int)","cb_t","typeof (x1)"};
struct VT { const char *ty; int k; }; // k: 1 array, 2 function pointer: a typedef is made
static const VT V[]={{"int %",0},{"int %[3]",1},{"int (*%)(int)",2},{"cb_t %",3},{"const struct s *%",0},{"int *(*%[3])(int)",2},{"int (*%)[3]",2},{"char %[2][N]",1},{"void (**%)(void)",2},{"int (*(*%)(int))(int)",2},{"int (*const %)(int)",2},{"arr_t %",4}};
static bool col; static std::string eol;
static std::string c(const char *n,const std::string &s){ return col?std::string("\x1B[0;")+n+"m"+s+"\x1B[0m":s; }
// a line of the tree: prefix, kind, what stands between the address and the name, name, type with quotes, rest
static std::string node(const std::string &pre,const char *kind,const std::string &mid,const std::string &nm,const std::string &ty,const std::string &rest){
  std::string m=mid; return c("34",pre)+c("1;32",kind)+c("33"," 0x5d985361c08")+(m.empty()?"":m+" ")+" <"+c("33","col:28")+", "+c("33","line:42:50")+"> "+c("33","col:16")+c("1;36"," "+nm)+" "+c("32","'"+ty+"'")+rest+eol; }
#ifdef WIDE
#define LETTERS "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
static std::string symbol(){ std::string s=h_symset(1,LETTERS,"sym"); if(unsigned n=sym_choice(LEN,"len")) s+=h_symset(n,LETTERS "0123456789","sym"); return s; }
#else
static std::string symbol(){ return h_symset(1+sym_choice(LEN,"len"),W,"sym"); }
#endif
struct Want { bool fn; std::string sym,type,args,names,td; };
extern "C" void harness_main(){
   unsigned nf=sym_choice(NF+1,"filters"); col=NF?PICK(2,"colour",nf):sym_choice(2,"colour"); eol=PICK(2,"crlf",col+nf)?"\r\n":"\n"; bool last=false; std::string in=c("1;32","TranslationUnitDecl")+c("33"," 0x5b4b21b885b8")+" <"+c("33","<invalid sloc>")+"> "+c("33","<invalid sloc>")+eol;
  in+=c("34","|-")+c("1;32","TypedefDecl")+c("33"," 0x55")+" <col:1> col:1 implicit __int128_t '__int128'"+eol+c("34","| `-")+c("1;32","BuiltinType")+" 0x56 'int'"+eol;
  std::vector<Want> d; 
  for(unsigned i=0;i<M;i++){ last=i==M-1; std::string br=last?"`-":"|-", in1=last?"  ":"| "; std::string sym=symbol(); Want w; w.sym=sym; std::string mid=i&&PICK(2,"prev",i+nf)?" prev 0x5d98":"",us; unsigned k=sym_choice(3,"kind"); us=PICK(2,"used",i+k)?" used":"";
    if(k==2){ // something else: a record with fields, or a function definition with declarations inside that is a function of its own
      in+=c("34",br)+c("1;32","RecordDecl")+c("33"," 0x77")+" <line:3:1, col:9> col:8 struct "+sym+" definition"+eol; in+=node(in1+"|-","FieldDecl","",sym,"int (*)(int)",""); in+=node(in1+"`-","VarDecl","",sym,"int",""); in+=node(in1+"`-","FunctionDecl","",sym,"int (void)",""); continue; }
    if(k==1){ w.fn=false; const VT &v=V[sym_choice(NV,"vartype")]; std::string t=v.ty; size_t p=t.find('%'); std::string ty=t.substr(0,p)+t.substr(p+1); if(p&&t[p-1]==' '&&(p+1==t.size()||t[p+1]==')')) ty=t.substr(0,p-1)+t.substr(p+1); 
      std::string rest=v.k==3?":'void (*)(const char *)'":v.k==4?":'int[3]'":""; std::string q=ty; in+=c("34",br)+c("1;32","VarDecl")+c("33"," 0x59d9")+mid+" <line:31:1, col:35> col:35"+us+c("1;36"," "+sym)+" "+c("32","'"+q+"'"+rest)+" extern"+eol; in+=c("34",in1+"`-")+c("1;34","VisibilityAttr")+" 0x66 <line:21:44> Default"+eol;
      w.type=ty; if(v.k==1||v.k==2) w.td=at(t,"gdo_"+sym+"__t"); d.push_back(w); continue; }
    w.fn=true; unsigned np=sym_choice(NP+1,"params"),rt=sym_choice(np>1?NR2:NR,"return"); w.type=R[rt]; bool va=np&&sym_choice(2,"variadic"); std::string fty=w.type+(w.type.back()=='*'?"(":" ("),lines;
    for(unsigned j=0;j<np;j++){ const PT &p=P[sym_choice(j==0?NT:NT2,"type")]; std::string t=p.ty; size_t q=t.find('%'); std::string ty=t.substr(0,q)+t.substr(q+1); if(q&&t[q-1]==' ') ty=t.substr(0,q-1)+t.substr(q+1); std::string n="a"+std::to_string(j+1); w.args+=(j?", ":"")+at(t,n); w.names+=(j?", ":"")+n; fty+=(j?", ":"")+ty; 
      std::string pn=PICK(2,"pname",j+rt)?std::string(" ")+h_symset(1,W,"pn"):""; lines+=c("34",in1+(j+1<np?"|-":"`-"))+c("1;32","ParmVarDecl")+c("33"," 0x59d98537")+" <"+c("33","col:35")+", "+c("33","col:41")+"> "+c("33","col:41")+(pn.empty()?"":c("1;36",pn))+" "+c("32","'"+ty+"'"+p.rest)+eol; }
    if(va){ w.args+=", ..."; fty+=", ..."; } if(!np) fty+=sym_choice(2,"void")?"void":""; fty+=")"; 
    static const char *const TAIL[]={""," extern"," static inline",""}; unsigned tl=PICK(TLS,"tail",i+rt+np); std::string q=fty; if(tl==3) q+=" __attribute__((cdecl))"; in+=c("34",br)+c("1;32","FunctionDecl")+c("33"," 0x59d98537f200")+mid+" <"+c("33","col:28")+", "+c("33","line:38:48")+"> "+c("33","col:17")+us+c("1;36"," "+sym)+" "+c("32","'"+q+"'")+TAIL[tl]+eol+lines; 
    if(tl==2){ in+=c("34",in1+"`-")+c("1;35","CompoundStmt")+" 0x99 <col:29>"+eol+c("34",in1+"  |-")+c("1;35","DeclStmt")+" 0x99 <col:29>"+eol+node(in1+"  | `-","VarDecl","",sym+"x","int","")+node(in1+"  | `-","FunctionDecl","",sym+"y","int (int)","")+node(in1+"  |   `-","ParmVarDecl","","q","char",""); } 
    else if(tl) in+=c("34",in1+"`-")+c("1;34","VisibilityAttr")+" 0x66 <line:21:44, col:65> Default"+eol;
    d.push_back(w); }
  // filters
  std::vector<std::string> args={"in.txt"},Pf,S; bool all=!NF||sym_choice(2,"all"); if(all) args.push_back("-ast-all-symbols");
  for(unsigned i=0;i<nf;i++){ bool p=sym_choice(2,"P"); std::string v=h_symset(1+sym_choice(LEN,"flen"),W,"filter"); (p?Pf:S).push_back(v); args.push_back((p?"-P":"-S")+v); }
  h_file("t.tpl",R_TPL); h_file("in.txt",in); h_observe("in",in); auto a=args; a.push_back("-template=t.tpl"); a.push_back("-out=o.h"); Run r=h_run(a); h_observe("status",std::to_string(r.status)); h_observe("err",r.err); bool ok=r_clean(r,"o.h");
  if(!all&&!nf){ h_assert(!ok,"an AST without a filter is accepted"); sym_cover("nofilter"); return; }
  std::vector<Want> w; std::vector<std::string> miss; 
  for(auto &x:d){ bool s=all; for(auto &p:Pf) s|=pre(x.sym,p); for(auto &n:S) s|=x.sym==n; for(auto &y:w) if(y.sym==x.sym) s=false; if(s) w.push_back(x); }
  if(!all) for(auto &n:S){ bool f=false; for(auto &x:d) f|=x.sym==n; if(!f) miss.push_back(n); }
  if(!miss.empty()){ sym_cover("missing"); h_assert(!ok,"a listed symbol that is not declared is not reported"); size_t p=r.err.find("not found:"); h_assert(p!=std::string::npos,"the error does not list the missing symbols"); auto ts=r_toks(r.err.substr(p+10)); for(auto &x:miss){ bool f=false; for(auto &t:ts) f|=t==x; h_assert(f,"a missing symbol is not in the list"); } for(auto &t:ts){ bool f=false; for(auto &x:miss) f|=t==x; h_assert(f,"a declared symbol is reported as missing"); } return; }
  if(w.empty()){ h_assert(!ok,"an empty selection is accepted"); sym_cover("empty"); return; }
  h_assert(ok,"a valid AST is rejected"); std::string o=h_read("o.h"); h_observe("o",o); auto s=r_syms(o); h_assert(s.size()==w.size(),"number of declarations differs"); 
  std::vector<Want> fs,os; for(auto &x:w) (x.fn?fs:os).push_back(x); size_t k=0; bool td=false;
  for(auto &x:fs){ Sym &y=s[k++]; h_assert(y.fn,"a function is missing"); h_assert_eq(y.sym,x.sym,"function name differs"); h_assert_eq(r_norm(y.type),r_norm(x.type),"return type differs"); std::string g=r_norm(y.args); if(g=="void ") g=""; h_assert_eq(g,r_norm(x.args),"parameters differ"); h_assert_eq(r_norm(y.names),r_norm(x.names),"parameter names differ"); sym_cover("function"); }
  for(auto &x:os){ Sym &y=s[k++]; h_assert(!y.fn,"a variable is missing"); h_assert_eq(y.sym,x.sym,"variable name differs"); if(x.td.empty()) h_assert_eq(r_norm(y.type),r_norm(x.type),"variable type differs"); else { td=true; h_assert_eq(y.type,"gdo_"+x.sym+"__t","typedef name differs"); } sym_cover("variable"); }
  if(!td) return;
  args.push_back("-print-symbols"); r=h_run(args); h_assert(r.status==0,"-print-symbols fails"); std::vector<std::string> t; for(auto &l:r_lines(r.out)) if(l.compare(0,8,"typedef ")==0){ h_assert(l.back()==';',"typedef without end"); t.push_back(l.substr(8,l.size()-9)); }
  k=0; for(auto &x:os) if(!x.td.empty()){ h_assert(k<t.size(),"typedef missing"); h_assert_eq(r_norm(t[k]),r_norm(x.td),"typedef differs from the declared type"); k++; } h_assert(k==t.size(),"number of typedefs differs"); sym_cover("typedef"); }
