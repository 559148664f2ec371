// Reference model of template expansion.
#ifndef TPL_H
#define TPL_H
#include "ref.h"
struct TFn { std::string type,sym,args,names; };
struct TObj { std::string type,sym; };
struct TIn { std::vector<TFn> f; std::vector<TObj> o; bool skip=false; };
struct TEnt { std::string data; int line,count; };            // text without the joining '@', first source line, number of source lines
static std::vector<TEnt> t_entries(const std::string &t){
  std::vector<TEnt> v; TEnt e{"",1,1}; int line=1; bool any=false;
  for(size_t i=0;i<t.size();i++){ any=true; char c=t[i];
    if(c=='\n'){ line++; size_t n=e.data.size();
      if(n&&e.data[n-1]=='@'){ e.data[n-1]='\n'; e.count++; continue; }
      if(n>1&&e.data[n-1]=='\r'&&e.data[n-2]=='@'){ e.data.erase(n-2); e.data+="\r\n"; e.count++; continue; }
      v.push_back(e); e=TEnt{"",line,1}; any=false; continue; }
    e.data+=c; }
  if(any){ if(!e.data.empty()&&e.data.back()=='@') e.data.pop_back(); if(!e.data.empty()) v.push_back(e); }
  return v; }
static std::string t_rep(std::string s,const std::string &a,const std::string &b){ std::string r; size_t i=0; for(;;){ size_t p=s.find(a,i); if(p==std::string::npos){ r+=s.substr(i); return r; } r+=s.substr(i,p-i)+b; i=p+a.size(); } }
static bool t_any(const std::string &s,const char *const *k,unsigned n){ for(unsigned i=0;i<n;i++) if(s.find(k[i])!=std::string::npos) return true; return false; }
static const char *const TK_F[]={"%%return%%","%%type%%","%%func_symbol%%","%%func_symbol_pad%%","%%args%%","%%param_names%%"};
static const char *const TK_O[]={"%%obj_type%%","%%obj_symbol%%","%%obj_symbol_pad%%"};
static const char *const TK_S[]={"%%sym_type%%","%%symbol%%"};
static int t_kind(const std::string &s){ return (t_any(s,TK_F,6)?1:0)|(t_any(s,TK_O,3)?2:0)|(t_any(s,TK_S,2)?4:0); }
static std::string t_pad(std::string s,size_t n){ while(s.size()<n) s+=' '; return s; }
// copies of one entry, one per symbol
static std::vector<std::string> t_copies(const std::string &d,int kind,const TIn &in){
  std::vector<std::string> v; size_t lf=0,lo=0; for(auto &f:in.f) if(f.sym.size()>lf) lf=f.sym.size(); for(auto &o:in.o) if(o.sym.size()>lo) lo=o.sym.size();
  auto ptr=[](const std::string &t){ return !t.empty()&&t.back()=='*'; };
  if(kind==1) for(auto &f:in.f){ std::string s=d; if(f.type=="void"){ s=t_rep(s,"%%return%% ",""); s=t_rep(s,"%%return%%",""); } else s=t_rep(s,"%%return%%","return"); if(ptr(f.type)) s=t_rep(s,"%%type%% ",f.type); s=t_rep(s,"%%type%%",f.type); s=t_rep(s,"%%func_symbol%%",f.sym); s=t_rep(s,"%%func_symbol_pad%%",t_pad(f.sym,lf)); s=t_rep(s,"%%args%%",f.args); s=t_rep(s,"%%param_names%%",f.names); v.push_back(s); }
  if(kind==2) for(auto &o:in.o){ std::string s=d; if(ptr(o.type)) s=t_rep(s,"%%obj_type%% ",o.type); s=t_rep(s,"%%obj_type%%",o.type); s=t_rep(s,"%%obj_symbol%%",o.sym); s=t_rep(s,"%%obj_symbol_pad%%",t_pad(o.sym,lo)); v.push_back(s); }
  if(kind==4){ for(auto &f:in.f){ std::string s=t_rep(d,"%%sym_type%%",f.type+(ptr(f.type)?"":" ")+"(*)("+f.args+")"); v.push_back(t_rep(s,"%%symbol%%",f.sym)); } for(auto &o:in.o){ std::string s=t_rep(d,"%%sym_type%%",o.type+(ptr(o.type)?"*":" *")); v.push_back(t_rep(s,"%%symbol%%",o.sym)); } }
  return v; }
static int t_mark(const std::string &d){ std::string s=d; if(!s.empty()&&s.back()=='\r') s.pop_back(); return s=="%PARAM_SKIP_REMOVE_BEGIN%"?1:s=="%PARAM_SKIP_USE_BEGIN%"?2:s=="%PARAM_SKIP_END%"?3:0; }
// output of a whole template without line directives; false: mixing error
static bool t_expand(const std::string &t,const TIn &in,std::string &out){
  bool off=false; out="";
  for(auto &e:t_entries(t)){ int m=t_mark(e.data); if(m){ off=m==1?in.skip:m==2?!in.skip:false; continue; } if(off) continue;
    int k=t_kind(e.data); if(k==0){ out+=e.data+"\n"; continue; } if(k!=1&&k!=2&&k!=4) return false; for(auto &c:t_copies(e.data,k,in)) out+=c+"\n"; }
  return true; }
// three inputs: functions only, objects only, both
static std::string t_input(unsigned k,bool skip,TIn &in){ std::string s; in.skip=skip;
  if(k!=1){ s+="void *foo(int (*a)(int, ...), char *b);\nvoid ba(void);\nconst char *quux(unsigned long z, ...);\n"; in.f={{"void *","foo","int (*a)(int, ...), char *b",skip?"":"a, b"},{"void","ba","void",""},{"const char *","quux","unsigned long z, ...",skip?"":"z"}}; }
  if(k!=0){ s+="extern int ob;\nchar *objtwo;\nstd_x arr[2];\n"; in.o={{"int","ob"},{"char *","objtwo"},{"gdo_arr__t","arr"}}; }
  return s; }
#endif
