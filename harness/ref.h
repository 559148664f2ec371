// Reference model of declarations, used as oracle by the generator harnesses.
#ifndef REF_H
#define REF_H
#include "h.h"
typedef std::vector<std::string> Toks;
static inline bool r_id(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'; }
static inline bool r_sp(char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'||c=='\v'||c=='\f'; }
static inline bool r_digit(char c){ return c>='0'&&c<='9'; }
static Toks r_toks(const std::string &s){
  Toks t; size_t i=0,n=s.size();
  while(i<n){
    if(r_sp(s[i])){i++;continue;}
    if(r_id(s[i])){ size_t b=i; while(i<n&&r_id(s[i]))i++; t.push_back(s.substr(b,i-b)); continue; }
    if(s[i]=='.'&&i+2<n&&s[i+1]=='.'&&s[i+2]=='.'){ t.push_back("..."); i+=3; continue; }
    t.push_back(std::string(1,s[i])); i++;
  }
  return t;
}
static inline bool r_isid(const std::string &t){ return r_id(t[0]); }
static inline bool r_is(const std::string &t,const char *c){ return t==c; }
static std::string r_join(const Toks &t,size_t b=0,size_t e=(size_t)-1){ std::string s; for(size_t i=b;i<t.size()&&i<e;i++){ s+=t[i]; s+=' '; } return s; }
static inline std::string r_norm(const std::string &s){ return r_join(r_toks(s)); }
static std::string r_flat(const std::string &s){ std::string r; for(auto &t:r_toks(s)) if(t!="("&&t!=")"){ r+=t; r+=' '; } return r; }
static std::vector<std::string> r_lines(const std::string &s){ std::vector<std::string> v; size_t b=0; while(b<s.size()){ size_t e=s.find('\n',b); if(e==std::string::npos)e=s.size(); v.push_back(s.substr(b,e-b)); b=e+1; } return v; }
static std::vector<std::string> r_split(const std::string &s,char c){ std::vector<std::string> v; size_t b=0; for(;;){ size_t e=s.find(c,b); if(e==std::string::npos){ v.push_back(s.substr(b)); return v; } v.push_back(s.substr(b,e-b)); b=e+1; } }
// what a declaration is: 0 must be rejected, 1 object, 2 array, 3 object of function pointer type, 4 function, 9 not decided here
struct Decl { int kind=9; std::string type,sym,args,all; };
static size_t r_close(const Toks &t,size_t i){ int d=0; for(;i<t.size();i++){ char c=t[i][0]; if(c=='('||c=='[')d++; if(c==')'||c==']'){ if(--d==0)return i; } } return t.size(); }
static bool r_balanced(const Toks &t){ std::string st; for(auto &x:t){ char c=x[0]; if(c=='('||c=='[')st+=c; else if(c==')'||c==']'){ if(st.empty()||st.back()!=(c==')'?'(':'['))return false; st.pop_back(); } } return st.empty(); }
static bool r_emptyparam(const Toks &t,size_t b,size_t e){ if(b==e)return false; int d=0; bool empty=true; for(size_t i=b;i<e;i++){ char c=t[i][0]; if(c=='('||c=='[')d++; if(c==')'||c==']')d--; if(c==','&&d==0){ if(empty)return true; empty=true; } else empty=false; } return empty; }
static Decl r_decl(const Toks &t0){
  Toks t; for(auto &x:t0) if(x!="extern") t.push_back(x);
  Decl d; d.all=r_join(t); size_t n=t.size(); if(!n) return d;
  if(!r_balanced(t)){ d.kind=0; return d; }
  size_t l=0; while(l<n&&(r_isid(t[l])||t[l]=="*")) l++;
  bool nm=l>=1&&r_isid(t[l-1]);
  if(l==n||t[l]=="["){
    for(size_t i=l;i<n;){ if(t[i]!="["){ d.kind=0; return d; } i=r_close(t,i)+1; }
    if(l<2||!nm||t[0]=="*"||r_digit(t[l-1][0])){ d.kind=0; return d; }
    d.kind=l==n?1:2; d.type=r_join(t,0,l-1); d.sym=t[l-1]; return d; }
  if(t[l]!="("){ d.kind=0; return d; }
  std::vector<std::pair<size_t,size_t>> g;
  for(size_t i=l;i<n;){ if(t[i]!="("){ if(t[i]=="[") return d; d.kind=0; return d; } size_t e=r_close(t,i); g.push_back({i,e}); i=e+1; }
  if(l&&t[0]=="*"){ d.kind=0; return d; }
  if(!l){ d.kind=0; return d; }
  if(g.size()==1){
    size_t b=g[0].first+1,e=g[0].second;
    if(nm&&l>=2){ if(b<e&&t[b]=="*") return d; if(r_digit(t[l-1][0])||r_emptyparam(t,b,e)){ d.kind=0; return d; }
      d.kind=4; d.type=r_join(t,0,l-1); d.sym=t[l-1]; d.args=r_join(t,b,e); return d; }
    return d; }
  if(g.size()==2&&!(nm&&l>=2&&t[g[0].first+1]!="*")){
    size_t b=g[0].first+1,e=g[0].second,b2=g[1].first+1,e2=g[1].second;
    if(b==e){ d.kind=0; return d; }
    if(e-b==1&&r_isid(t[b])){ if(r_digit(t[b][0])||r_emptyparam(t,b2,e2)){ d.kind=0; return d; } d.kind=4; d.type=r_join(t,0,l); d.sym=t[b]; d.args=r_join(t,b2,e2); return d; }
    if(e-b==2&&t[b]=="*"&&r_isid(t[b+1])){ if(r_digit(t[b+1][0])||r_emptyparam(t,b2,e2)){ d.kind=0; return d; } d.kind=3; d.type=r_join(t,0,l); d.sym=t[b+1]; d.args=r_join(t,b2,e2); return d; }
  }
  return d;
}
// declarations of a whole input made of plain tokens only; the last one may lack its semicolon
static std::vector<Decl> r_input(const std::string &s){ std::vector<Decl> v; Toks cur; for(auto &x:r_toks(s)){ if(x==";"){ if(!cur.empty()) v.push_back(r_decl(cur)); cur.clear(); } else cur.push_back(x); } if(!cur.empty()) v.push_back(r_decl(cur)); return v; }
// template giving one line per symbol, and its parsed form
#define R_TPL "F|%%type%%|%%func_symbol%%|%%args%%|%%param_names%%|\nO|%%obj_type%%|%%obj_symbol%%|\n"
struct Sym { bool fn; std::string type,sym,args,names; };
static std::vector<Sym> r_syms(const std::string &s){ std::vector<Sym> v; for(auto &l:r_lines(s)){ if(l.size()<2) continue; auto p=r_split(l,'|'); if(p[0]=="F"&&p.size()==6) v.push_back({true,p[1],p[2],p[3],p[4]}); else if(p[0]=="O"&&p.size()==4) v.push_back({false,p[1],p[2],"",""}); else sym_fail("unexpected line in the output of the template"); } return v; }
// exit status and channels are as promised for any run; returns true if it succeeded
static bool r_clean(const Run &r,const char *outfile){
  if(r.status==134) sym_fail("aborted"); if(r.status==124) sym_fail("does not terminate");
  h_assert(r.status==0||r.status==1,"exit status is neither 0 nor 1");
  if(r.status==1){ h_assert(!r.err.empty(),"failed without an error message"); h_assert(r.out.empty(),"failed but printed to stdout"); if(outfile) h_assert(h_kind(outfile)==0,"failed but created an output file"); return false; }
  return true; }
#endif
