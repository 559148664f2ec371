// C12: command line options mean what the help text says
#include "ref.h"
struct Opt { const char *name; bool val; bool multi; const char *v[2]; };
static const Opt O[]={
 {"D",true,true,{"FOO=1","Bar"}}, {"P",true,true,{"fo","ob"}}, {"S",true,true,{"foo","obj"}},
 {"format",true,false,{"minimal","Plugin"}}, {"include",true,true,{"x.h","<y.h>"}}, {"library",true,false,{"foo","nq:LIB"}},
 {"param",true,false,{"skip","create"}}, {"prefix",true,false,{"my","a b"}}, {"template",true,false,{"t.tpl","t2.tpl"}}, {"out",true,false,{"o.h","q.h"}}, {"templates-path",true,false,{"tp","tp2"}},
 {"line",false,false,{}}, {"no-date",false,false,{}}, {"no-pragma-once",false,false,{}}, {"force",false,false,{}}, {"ignore-options",false,false,{}}, {"print-symbols",false,false,{}}, {"separate",false,false,{}}, {"ast-all-symbols",false,false,{}} };
static const unsigned NO=sizeof(O)/sizeof(O[0]);
static const char *const EXTRA[]={"help","?","full-help","version","dump-templates"};
static void setup(){ h_file("in.txt","%option include=opt.h\nint foo(int a);\nint obj;\nvoid bar(char *b);\n"); h_file("t.tpl",R_TPL); h_file("t2.tpl","x %%symbol%%\nGDO_x\n"); h_file("o.h","old\n"); }
struct Res { Run r; std::string files; };
static Res run(std::vector<std::string> a){ h_reset(); setup(); Res x; x.r=h_run(a); for(auto &p:h_list()) x.files+=p+"\n"+(h_kind(p.c_str())==1?h_read(p.c_str()):"")+"\n"; return x; }
static void same(const Res &a,const Res &b,bool err){ h_assert(a.r.status==b.r.status,"exit status depends on how an option is spelled"); h_assert_eq(a.r.out,b.r.out,"standard output depends on how an option is spelled"); h_assert_eq(a.files,b.files,"files depend on how an option is spelled"); if(err) h_assert_eq(a.r.err,b.r.err,"messages depend on how an option is spelled"); }
static bool one(const Opt &o){ return !o.name[1]; }
// one option in one of its spellings
static void spell(std::vector<std::string> &a,const Opt &o,const std::string &v,unsigned dash,unsigned next){
  std::string n=(dash&&!one(o)?"--":"-")+std::string(o.name);
  if(!o.val) a.push_back(n); else if(next){ a.push_back(n); a.push_back(v); } else a.push_back(n+(one(o)?"":"=")+v); }
static bool known(const std::string &arg,unsigned &needs){ // is this argument (beginning with a dash) a complete option? needs=1: takes its value from the next one; 2: empty value
  needs=0; if(arg.size()<2||arg[0]!='-') return true; bool two=arg[1]=='-'; std::string n=arg.substr(two?2:1); if(n.empty()) return true;
  for(auto &e:EXTRA) if(n==e){ if(!strcmp(e,"dump-templates")) needs=1; return true; }
  if(n.compare(0,15,"dump-templates=")==0){ if(n.size()==15) needs=2; return true; }
  for(auto &o:O){ std::string m=o.name; if(one(o)){ if(two) continue; if(n==m){ needs=1; return true; } if(n[0]==m[0]) return true; continue; }
    if(n==m){ if(o.val) needs=1; return true; } if(o.val&&n.compare(0,m.size()+1,m+"=")==0){ if(n.size()==m.size()+1) needs=2; return true; } }
  return false; }
extern "C" void harness_main(){
#if MODE==0   // spelling and position
  unsigned a=sym_choice(NO,"a"),b=sym_choice(NO,"b"); const Opt &x=O[a],&y=O[b]; unsigned vb=PAIR?sym_choice(2,"vb"):y.val; std::string v1=x.val?x.v[0]:"",v2=y.val?y.v[vb]:"";
  if(!y.val&&vb) sym_prune();
  unsigned s1=sym_choice(4,"spell"),s2=sym_choice(4,"spell"); if((one(x)||!x.val)&&(s1&(one(x)?1:2))) sym_prune(); if((one(y)||!y.val)&&(s2&(one(y)?1:2))) sym_prune();
  unsigned pos=PAIR?sym_choice(3,"pos"):2*sym_choice(2,"pos"); if(PAIR==0&&s1==0&&s2==0&&pos==0) sym_prune(); if(PAIR==0&&s1&&s2) sym_prune();
  std::vector<std::string> c={"-no-date","-format=minimal"}, d={"-no-date","-format=minimal"};
  if(!strcmp(x.name,"prefix")||!strcmp(y.name,"prefix")){ c.push_back("-template=t2.tpl"); d=c; } // short output, prefixes are replaced everywhere
  if(x.val&&strcmp(x.name,"format")&&strcmp(x.name,"param")&&strncmp(x.name,"template",8)) v1+=h_symset(1,x.name[0]=='D'?"ab=_ 1":"abo_9-","v");
  bool override_=a==b&&x.val&&!x.multi;
  if(!override_) spell(c,x,v1,0,0); spell(c,y,v2,0,0); c.push_back("in.txt");
  if(pos==0) d.push_back("in.txt"); spell(d,x,v1,s1&1,s1>>1); if(pos==1) d.push_back("in.txt"); spell(d,y,v2,s2&1,s2>>1); if(pos==2) d.push_back("in.txt");
  Res p=run(c),q=run(d); h_observe("out",p.r.out); h_observe("err",p.r.err); h_observe("files",p.files);
  same(p,q,true); sym_cover(p.r.status?"fails":"works"); if(override_) sym_cover("override");
#elif MODE==1  // option names: one character replaced, removed or inserted
  unsigned a=sym_choice(NO+5,"opt"); std::string n=a<NO?O[a].name:EXTRA[a-NO]; bool v=a<NO?O[a].val:a==NO+4; if(v&&n.size()>1) n+="=y"; std::string t=(sym_choice(2,"dashes")?"--":"-")+n;
  unsigned k=sym_choice(3,"edit"); size_t at=sym_choice(t.size()+1,"at"); if(k==1&&at==t.size()) sym_prune(); std::string ch=h_symbytes(1,"char"); sym_assume(ch[0]!=0);
  if(k==0) t.insert(at,ch); else if(k==1) t[at]=ch[0]; else { if(at>=t.size()) sym_prune(); t.erase(at,1); }
  unsigned needs; if(known(t,needs)){ sym_cover("known"); return; }
  Res r=run({"in.txt",t,"-out=new.h"}); h_observe("err",r.r.err); h_assert(r_clean(r.r,"new.h")==false,"an unknown option is accepted"); sym_cover("unknown"); h_assert(r.r.err.find(t)!=std::string::npos,"the message does not name the unknown option");
#elif MODE==2  // missing and empty values
  unsigned a=sym_choice(NO+1,"opt"); static const Opt dt={"dump-templates",true,false,{"x","y"}}; const Opt &o=a<NO?O[a]:dt; if(!o.val) sym_prune(); unsigned k=sym_choice(3,"how"); if(one(o)&&k==1) sym_prune(); std::string n=(!one(o)&&sym_choice(2,"dashes")?"--":"-")+std::string(o.name);
  std::vector<std::string> v={"in.txt","-out=new.h"}; if(k==1) v.push_back(n+"="); else { v.push_back(n); if(k==2) v.push_back(""); } if(k&&sym_choice(2,"more")) v.push_back("-force");
  Res r=run(v); h_observe("err",r.r.err); h_assert(!r_clean(r.r,"new.h"),"an option without value is accepted"); h_assert(r.r.err.find("'"+n+"'")!=std::string::npos,"the message does not name the option as given"); sym_cover("missing");
#elif MODE==3  // values of -format and -param
  bool f=sym_choice(2,"which"); static const char *const FV[]={"c","c++","cxx","cpp","minimal","minimal-c","minimal-c++","minimal-cxx","minimal-cpp","plugin","plugin-c"}; static const char *const PV[]={"skip","read","create"};
  static const unsigned cls[]={0,1,1,1,2,2,3,3,3,4,4}; std::string v; bool ok=false; unsigned want=0; std::string base;
  if(sym_choice(2,"edit")){ unsigned i=sym_choice(f?11:3,"val"); v=f?FV[i]:PV[i]; size_t at=sym_choice(v.size(),"at"); v[at]=h_symbytes(1,"char")[0]; sym_assume(v[at]!=0); }
  else { v=h_symbytes(sym_choice(2,"len")+1,"value"); for(char c:v) sym_assume(c!=0); }
  std::string l=v; for(char &c:l) if(c>='A'&&c<='Z') c+=32;
  for(unsigned i=0;i<(f?11u:3u);i++) if(l==(f?FV[i]:PV[i])){ ok=true; want=f?cls[i]:i; }
  Res r=run({"in.txt",(f?"-format=":"-param=")+v,"-no-date","-ignore-options"}); h_observe("err",r.r.err); h_observe("out",r.r.out);
  if(!ok){ h_assert(!r_clean(r.r,0),"an invalid value is accepted"); h_assert(r.r.err.find(v)!=std::string::npos,"the message does not name the invalid value"); sym_cover("invalid"); return; }
  static const char *const FC[]={"c","c++","minimal","minimal-c++","plugin"}; Res b=run({"in.txt",std::string(f?"-format=":"-param=")+(f?FC[want]:PV[want]),"-no-date","-ignore-options"}); same(r,b,true); sym_cover("valid");
  h_assert(r.r.status==0,"a documented value is refused");
  if(f){ bool cc=h_has(r.r.out,"extern \"C\""),ns=h_has(r.r.out,"namespace"),pl=h_has(r.r.out,"_plugin_"); h_assert(cc==(want==0||want==2||want==4),"C output for a C++ format or the other way round"); h_assert(pl==(want==4),"plugin output"); }
#elif MODE==4  // non-option arguments
  std::string x=h_symbytes(2,"arg"); sym_assume(x[0]!=0&&x[0]!='-'); std::string y=x[1]?x:x.substr(0,1); bool first=sym_choice(2,"first");
  static const char *const L[]={"-","--"}; unsigned k=sym_choice(3,"what"); if(k) y=L[k-1];
  if(!first){ Res r=run({"in.txt","-no-date",y,"-format=minimal"}),b=run({"-no-date","-format=minimal","in.txt"}); h_observe("err",r.r.err); h_assert(r.r.status==0,"a second file name is not ignored"); h_assert_eq(r.r.out,b.r.out,"a second file name changes the output"); h_assert_eq(r.files,b.files,"a second file name changes files"); h_assert(r.r.err.find(y)!=std::string::npos,"no warning names the ignored argument"); h_assert(b.r.err.empty(),"warning without reason"); sym_cover("second"); }
  else { Res r=run({y,"in.txt","-no-date"}); h_observe("err",r.r.err); sym_cover("first"); h_assert(r.r.status==1,"the first file name is not the input file"); h_assert(r.r.out.empty()&&h_has(r.r.err,"in.txt"),"no warning about the second file name"); if(k!=1) h_assert(h_has(r.r.err,y.c_str()),"the input file is not named in the message"); }
#elif MODE==6  // a later value replaces every earlier one
  static const char *const S[]={"format","param","prefix","library","template","out","templates-path"}; static const unsigned NV[]={11,3,3,3,2,3,2};
  static const char *const V[][11]={{"c","c++","cxx","cpp","minimal","minimal-c","minimal-c++","minimal-cxx","minimal-cpp","plugin","plugin-c"},{"skip","read","create"},{"my","gdo","a b"},{"foo","nq:LIB","api:1:x"},{"t.tpl","t2.tpl"},{"q.h","-","n.h"},{"tp","tp2"}};
  unsigned k=sym_choice(7,"opt"), i=sym_choice(NV[k],"earlier"), j=sym_choice(NV[k],"later"); if(i==j) sym_prune(); std::string n="-"+std::string(S[k])+"="; std::vector<std::string> a={"in.txt","-no-date","-ignore-options"}; if(k) a.push_back(k==4?"-line":"-template=t2.tpl");
  std::vector<std::string> b=a; std::string x=V[k][i], y=V[k][j]; if(k==2||k==3){ x+=h_symset(1,"aZ_9-","x"); y+=h_symset(1,"aZ_9-","y"); } a.push_back(n+x); if(sym_choice(2,"between")){ a.push_back("-no-pragma-once"); b.push_back("-no-pragma-once"); } a.push_back(n+y); b.push_back(n+y);
  bool anon=k==1&&sym_choice(2,"anonymous"); auto go=[&](const std::vector<std::string> &v){ h_reset(); setup(); if(anon) h_file("in.txt","int foo(int);\n"); Res x; x.r=h_run(v); for(auto &p:h_list()) x.files+=p+"\n"+(h_kind(p.c_str())==1?h_read(p.c_str()):"")+"\n"; return x; };
  Res p=go(a),q=go(b); h_observe("out",p.r.out); h_observe("err",p.r.err); same(p,q,true); sym_cover("override"); if(anon&&j==1) h_assert(p.r.status==1,"a parameter without name is read");
#elif MODE==7  // the argument after an option is its value, also when it looks like an option itself
  unsigned a=sym_choice(NO,"opt"); const Opt &o=O[a]; if(!o.val) sym_prune(); static const char *const V[]={"","-","line","out","-format=c","help"};
  unsigned k=sym_choice(7,"value"); std::string v="-"; if(k<6) v+=V[k]; else v+=h_symset(1,"aD-P=?9 /","v"); unsigned dash=sym_choice(2,"dashes"); if(one(o)&&dash) sym_prune(); unsigned pos=sym_choice(2,"pos");
  std::vector<std::string> c={"-no-date","-format=minimal"},d=c; if(strcmp(o.name,"format")&&strncmp(o.name,"template",8)){ c.push_back("-template=t2.tpl"); d=c; } if(pos){ c.push_back("in.txt"); d.push_back("in.txt"); }
  spell(c,o,v,dash,0); spell(d,o,v,dash,1); if(!pos){ c.push_back("in.txt"); d.push_back("in.txt"); }
  Res p=run(c),q=run(d); h_observe("out",p.r.out); h_observe("err",p.r.err); h_observe("files",p.files); h_observe("out2",q.r.out); h_observe("err2",q.r.err);
  same(p,q,true); sym_cover(p.r.status?"fails":"works");
#elif MODE==5  // help, version, nothing
  unsigned k=sym_choice(6,"what"); static const char *const E[]={"help","?","full-help","version"}; static const char *const N[]={"usage:","usage:","usage:","gendlopen "};
  if(k<4){ Res r=run({"-format=minimal",(sym_choice(2,"dashes")?"--":"-")+std::string(E[k]),sym_choice(2,"rest")?"-nonsense":"in.txt"}); h_assert(r.r.status==0,"help or version fails"); h_assert(h_has(r.r.out,N[k]),"help or version text missing"); h_assert(r.r.err.empty(),"help or version with errors"); h_observe("out",r.r.out); sym_cover("help"); }
  else { std::vector<std::string> v={"-format=minimal","-out=new.h"}; if(k==5) v.push_back(""); Res r=run(v); h_assert(!r_clean(r.r,"new.h"),"no input file but no error"); sym_cover("noinput"); }
#endif
}
