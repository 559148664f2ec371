// C13: %option lines act exactly like the equivalent command line options
#include "ref.h"
static const char *const O[]={"D","format","include","library","line","no-date","no-pragma-once","param","prefix"};
static const bool VAL[]={1,1,1,1,0,0,0,1,1};
static std::string val(unsigned k,unsigned i){ std::string s;
  switch(k){ case 0: return "F"+h_symset(1,"aZ=_1\"","v")+"=3"; case 1: { static const char *const f[]={"minimal","Plugin","c++"}; return f[sym_choice(i?2:3,"f")]; }
    case 2: return h_symset(1,"ab<\"","v")+".h"; case 3: return h_symset(1,"abneq:/","v")+"oo"; case 7: { static const char *const f[]={"skip","create","read"}; return f[sym_choice(2,"p")]; } default: return "my"+h_symset(1,"aZ_9-","v"); } }
static const char BODY[]="int foo(int a);\nint obj;\nvoid bar(char *b, ...);\n";
struct Res { Run r; std::string files; };
static Res run(const std::string &in,std::vector<std::string> a){ h_reset(); h_file("t.tpl","x %%symbol%% GDO_x\nF %%func_symbol%% %%args%% %%param_names%% gdo_x\n"); h_file("in.txt",in); Res x; a.push_back("in.txt"); x.r=h_run(a); for(auto &p:h_list()) if(p!="in.txt") x.files+=p+"\n"+h_read(p.c_str())+"\n"; return x; }
static void same(const Res &a,const Res &b){ h_assert(a.r.status==b.r.status,"exit status differs between %option line and command line"); h_assert_eq(a.r.out,b.r.out,"output differs between %option line and command line"); h_assert_eq(a.files,b.files,"files differ between %option line and command line"); }
extern "C" void harness_main(){
#if MODE==0 || MODE==1
  unsigned n=1+sym_choice(NO,"n"); std::string opt; std::vector<std::string> cl; bool tpl=false; unsigned lay=sym_choice(6,"layout"), place=sym_choice(5,"place"); if(place>2&&(n>1||lay>1)) sym_prune(); std::string line="%option"; bool fst=true;
  static const char *const GAP[]={" ","\t","  "," \\\n"," \\ \t\n "," \\\r\n"};
  for(unsigned i=0;i<n;i++){ unsigned k=sym_choice(9,"opt"); tpl|=k==8; std::string s=O[k],v; if(VAL[k]){ v=val(k,i); s+="="+v; } cl.push_back(k?"-"+s:"-D"+v); if(!fst&&lay==5){ line+="\n%option "+s; } else line+=GAP[lay]+s; fst=false; }
  line+="\n"; std::string in=place==0?line+BODY:place==1?std::string(BODY)+line:place==2?"int first(int z);\n"+line+BODY:place==3?"struct z {\n int i;\n"+line+"};\n"+BODY:"int first(\n"+line+"int z);\n"+BODY, plain=place==2||place==4?std::string("int first(int z);\n")+BODY:BODY;
  h_observe("in",in);
#if MODE==0
  std::vector<std::string> base={"-no-date","-format=minimal"}; if(tpl) base.push_back("-template=t.tpl");
  std::vector<std::string> all=base; all.insert(all.end(),cl.begin(),cl.end());
  Res p=run(in,base),q=run(plain,all); h_observe("out",p.r.out); h_observe("err",p.r.err); same(p,q); h_assert(p.r.status==0,"documented %option is refused"); sym_cover("same");
#else
  std::vector<std::string> base={"-no-date","-format=minimal"}; Res q=run(plain,base); base.push_back("-ignore-options"); if(sym_choice(2,"junk")) { in="%option nonsense foo=\n"+in; } Res p=run(in,base); h_observe("err",p.r.err); same(p,q); h_assert(p.r.err.empty()&&p.r.status==0,"ignored %option lines are not ignored"); sym_cover("ignored");
#endif
#elif MODE==2 // names
  unsigned k=sym_choice(9,"opt"); std::string s=O[k]; if(VAL[k]) s+="="; size_t at=sym_choice(s.size()+1,"at"); unsigned e=sym_choice(3,"edit"); std::string ch=h_symset(1,"abcdDflinoprtx=-_:/\"1","ch"); if(e==1&&at==s.size()) sym_prune(); if(e==0) s.insert(at,ch); else if(e==1) s[at]=ch[0]; else { if(at>=s.size()) sym_prune(); s.erase(at,1); }
  bool val=sym_choice(2,"value"); if(val) s+="c"; bool known=false,bad=false; for(unsigned i=0;i<9;i++){ std::string n=O[i]; if(!VAL[i]) known|=s==n; else if(s.compare(0,n.size()+1,n+"=")==0){ known=true; if(s.size()==n.size()+1) bad=true; } }
  if(known&&!bad) { sym_cover("known"); return; }
  if(s.empty()) return;
  Res p=run("%option line "+s+"\n"+BODY,{"-no-date","-template=t.tpl","-out=new.h"}); h_observe("err",p.r.err); h_assert(!r_clean(p.r,"new.h"),"an unknown or valueless %option is accepted"); sym_cover(bad?"valueless":"unknown"); h_assert(p.r.err.find(s.substr(0,s.find('=')))!=std::string::npos,"the message does not name the %option");
#elif MODE==3 // layout: %option only counts at the beginning of a line; arbitrary separators
  std::string a=h_symset(N," \t\\\n\rx","gap"); std::string in="%option"+a+"no-pragma-once\n"+BODY; Res p=run(in,{"-no-date","-format=minimal"}); h_observe("err",p.r.err);
  // independent reading: words of the logical line after %option; backslash, optional spaces, newline continues it
  std::vector<std::string> w; std::string cur; size_t i=0; std::string rest=a+"no-pragma-once\n"+BODY; bool line=true; std::string after;
  while(line&&i<rest.size()){ char c=rest[i]; if(c=='\\'){ size_t j=i+1; while(j<rest.size()&&(rest[j]==' '||rest[j]=='\t'||rest[j]=='\r'||rest[j]=='\v'||rest[j]=='\f'))j++; if(j<rest.size()&&rest[j]=='\n'){ if(!cur.empty()){ sym_cover("split word"); return; } i=j+1; continue; } cur+=c; i++; continue; }
    if(c=='\n'){ line=false; i++; break; } if(r_sp(c)){ if(!cur.empty()) w.push_back(cur); cur=""; i++; continue; } cur+=c; i++; }
  if(!cur.empty()) w.push_back(cur); after=rest.substr(i);
  if(a.empty()||a[0]=='x'||a[0]=='\\') return;   // no %option line
  bool unk=false; for(auto &x:w) if(x!="no-pragma-once") unk=true; if(after.compare(0,3,"int")!=0) return;  // other tokens after the line
  if(unk){ sym_cover("unknown"); h_assert(!r_clean(p.r,0),"unknown %option word is accepted"); return; }
  sym_cover("known"); h_assert(p.r.status==0,"%option line with other spacing is refused"); bool np=!h_has(p.r.out,"#pragma once"); h_assert(np==(w.size()>0),"%option word has no effect");
#endif
}
