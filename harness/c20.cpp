// C20: template placeholders expand once per matching symbol, everything else is copied
#include "tpl.h"
static const char *const PH[]={"%%return%%","%%type%%","%%func_symbol%%","%%func_symbol_pad%%","%%args%%","%%param_names%%","%%obj_type%%","%%obj_symbol%%","%%obj_symbol_pad%%","%%sym_type%%","%%symbol%%"};
static void judge(const std::string &tpl,TIn in,const std::string &src,bool skip){
  h_file("in.txt",src); h_file("t.tpl",tpl); h_observe("tpl",tpl);
  std::vector<std::string> a={"in.txt","-template=t.tpl","-out=o.x"}; if(skip) a.push_back("-param=skip"); Run r=h_run(a); h_observe("err",r.err);
  std::string want; bool ok=t_expand(tpl,in,want); 
  if(!ok){ h_assert(r.status==1&&h_has(r.err,"cannot mix"),"mixed placeholders are no error"); sym_cover("mixed"); return; }
  h_assert(r.status==0,"a valid template is refused"); std::string o=h_read("o.x"); h_observe("o",o); h_assert_eq(o,want,"output of the template differs"); sym_cover("expanded"); }
static void judge(const std::string &tpl,unsigned which,bool skip){ TIn in; std::string src=t_input(which,skip,in); judge(tpl,in,src,skip); }
extern "C" void harness_main(){
#if MODE==4   // padding: names of different lengths
  TIn in; std::string src; unsigned nf=sym_choice(N+1,"functions"),no=sym_choice(N+1,"objects"); if(nf+no==0) sym_prune(); 
  for(unsigned i=0;i<nf+no;i++){ std::string n=std::string(1,"fghuvw"[i<nf?i:3+i-nf])+std::string(sym_choice(3,"len"),'x'); if(sym_choice(2,"symbolic")&&n.size()>1) n.back()=h_symset(1,"09_zA","ch")[0]; if(i<nf){ src+="int "+n+"(char c);\n"; in.f.push_back({"int",n,"char c","c"}); } else { src+="extern int "+n+";\n"; in.o.push_back({"int",n}); } }
  static const char *const T[]={"<%%func_symbol_pad%%>%%func_symbol%%\n","<%%obj_symbol_pad%%>%%obj_symbol%%\n","<%%symbol%%>\n"}; std::string t; for(int i=0;i<3;i++) t+=T[i]; judge(t,in,src,false); return;
#else
  unsigned which=sym_choice(3,"input"); bool skip=sym_choice(2,"skip");
#if MODE==0   // segments
  std::string s; for(unsigned i=0;i<N;i++){ unsigned k=sym_choice(i==N-1?17:15,"seg"); if(k<11) s+=PH[k]; else if(k==11) s+=h_symset(1," x%(","txt"); else if(k==12) s+="@\n"; else if(k==13) s+="\n"; else if(k==14) s+=" %"; else if(k==15) s+="@"; else if(k==16) s+="\n\n"; }
  judge(s,which,skip);
#elif MODE==1 // placeholders with one byte changed, inserted or removed
  unsigned k=sym_choice(11,"ph"); std::string s=PH[k]; unsigned e=sym_choice(3,"edit"); size_t at=sym_choice(s.size(),"at"); char c=h_symbytes(1,"byte")[0]; if(e==0) s[at]=c; else if(e==1) s.insert(at,1,c); else s.erase(at,1); judge("a"+s+"%%b\n"+PH[2*(k/6)+3]+"\n",which,skip);
#elif MODE==2 // arbitrary bytes
  judge("x"+h_symbytes(N,"bytes")+"%%symbol%%;\n end"+h_symbytes(1,"last"),which,skip);
#elif MODE==3 // sections
  static const char *const M[]={"%PARAM_SKIP_REMOVE_BEGIN%\n","%PARAM_SKIP_USE_BEGIN%\n","%PARAM_SKIP_END%\n","\n","keep %%type%%\n","o %%obj_type%% @\n y\n","%%symbol%% %%args%%\n","%PARAM_SKIP_END%\r\n"}; std::string s; for(unsigned i=0;i<N;i++) s+="l"+std::to_string(i)+"\n"+M[sym_choice(8,"line")]; if(sym_choice(2,"edit")){ size_t at=sym_choice(s.size()<60?s.size():60,"at"); s[at]=h_symset(1,"_%\nX ","ch")[0]; } judge(s+"z",which,skip);
#endif
#endif
}
