// C14: comments, preprocessor lines, spacing and type blocks never change the result
#include "ref.h"
static bool blank(char c){ return c==' '||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
// what a C compiler leaves over: 0 = decided, 1 = unterminated comment, 2 = not decided here; ill: first other character and its line
struct Ref { std::string text; int und=0; bool ill=false; char c=0; int line=0; };
static Ref strip(const std::string &s){
  Ref r; std::string t; std::vector<int> ln; int line=1; size_t i=0; if(s.compare(0,3,"\xEF\xBB\xBF")==0) i=3; std::vector<char> spl;  // spl: this character follows a splice
  bool sp=false; for(;i<s.size();){ if(s[i]=='\\'){ size_t j=i+1; while(j<s.size()&&blank(s[j]))j++; if(j<s.size()&&s[j]=='\n'){ i=j+1; line++; sp=true; continue; } } t+=s[i]; ln.push_back(line); spl.push_back(sp); sp=false; if(s[i]=='\n') line++; i++; }
  if(sp){ r.und=2; return r; }
  size_t n=t.size(); bool bol=true; // only white space since the beginning of the line
  auto lit=[&](size_t k)->size_t{ char q=t[k]; for(size_t j=k+1;j<n&&t[j]!='\n';j++){ if(t[j]=='\\'){ j++; if(j<n&&t[j]=='\n') return k; continue; } if(t[j]==q) return j; } return k; };
  for(i=0;i<n;){ char c=t[i];
    if(spl[i]){ r.und=2; return r; }          // splices between or within tokens are not accepted
    if(c=='/'&&i+1<n&&t[i+1]=='/'){ while(i<n&&t[i]!='\n')i++; continue; }
    if(c=='/'&&i+1<n&&t[i+1]=='*'){ size_t e=i+2; bool nl=false; while(e+1<n&&!(t[e]=='*'&&t[e+1]=='/')){ nl|=t[e]=='\n'; e++; } if(e+1>=n){ r.und=1; return r; } i=e+2; r.text+=' '; if(bol||nl){ size_t k=i; while(k<n&&blank(t[k]))k++; if(k<n&&t[k]=='#'){ r.und=2; return r; } } continue; }
    if(c=='#'&&bol){ i++; // directive: up to the end of the line, comments may continue it
      for(;i<n&&t[i]!='\n';){ if(t[i]=='/'&&i+1<n&&t[i+1]=='/'){ while(i<n&&t[i]!='\n')i++; break; } if(t[i]=='/'&&i+1<n&&t[i+1]=='*'){ size_t e=i+2; while(e+1<n&&!(t[e]=='*'&&t[e+1]=='/'))e++; if(e+1>=n){ r.und=1; return r; } i=e+2; continue; } if(t[i]=='"'||t[i]=='\''){ size_t e=lit(i); if(e==i&&t[i]=='\'' ){} i=e+1; continue; } i++; }
      continue; }
    if(c=='\n'){ bol=true; r.text+=c; i++; continue; }
    if(r_sp(c)){ r.text+=c; i++; continue; }
    bol=false;
    if(r_id(c)||strchr("*,()[]{}=;",c)&&c){ r.text+=c; i++; continue; }
    if(c=='.'&&i+2<n&&t[i+1]=='.'&&t[i+2]=='.'){ if(spl[i+1]||spl[i+2]){ r.und=2; return r; } r.text+="..."; i+=3; continue; }
    if(c=='%'||(unsigned char)c==0xEF){ r.und=2; return r; }
    r.ill=true; r.c=c; r.line=ln[i]; return r; }
  return r; }
static Run run(const std::string &in){ h_file("t.tpl",R_TPL); h_file("in.txt",in); return h_run({"in.txt","-template=t.tpl"}); }
static void equal(const std::string &in,const std::string &want){ h_observe("in",in); Run a=run(in),b=run(want); h_observe("out",a.out); h_observe("err",a.err); h_assert(a.status==b.status,"accepted or rejected because of ignorable text"); if(!a.status) h_assert_eq(a.out,b.out,"symbols differ because of ignorable text"); sym_cover(a.status?"rejected":"same"); }
static void judge(const std::string &in){ Ref r=strip(in); if(r.und){ sym_cover("undecided"); return; }
  if(r.ill){ Run a=run(in); h_observe("err",a.err); h_assert(a.status==1&&a.out.empty(),"character outside the accepted set is accepted"); char b[64]; sym_cover("illegal"); unsigned char c=r.c; if(c>32&&c<127) snprintf(b,64,"[%c] at line %d",c,r.line); else snprintf(b,64,"[0x%02X] at line %d",c,r.line); h_assert(h_has(a.err,b),"the message does not name the character and its line"); return; }
  equal(in,r.text); }
static const char *const TOK[]={"int"," ","foo","(","const"," ","char","*","a",","," ","int"," ","bb",")",";","void"," ","bar","(","void",")",";"};
static const unsigned NT=sizeof(TOK)/sizeof(TOK[0]);
static std::string at(unsigned pos,const std::string &x){ std::string s; for(unsigned i=0;i<NT;i++){ if(i==pos) s+=x; s+=TOK[i]; } if(pos==NT) s+=x; return s; }
extern "C" void harness_main(){
#if MODE==0   // comments with arbitrary bytes between any two tokens
  unsigned p=sym_choice(NT+1,"pos"), k=sym_choice(3,"form"); std::string x=h_symbytes(N,"bytes"); judge(at(p,k==0?"/*"+x+"*/":k==1?"//"+x+"\n":"/\\\n*"+x+"*\\ \n/"));
#elif MODE==1 // characters that make up comments, splits and literals
  std::string x=h_symset(N,SETC,"chars"); static const char *const pre[]={"int foo(int a);\n","int foo(int a);\n/*","int foo(int a);\n#","int foo(int a);\n#x \"","int foo(int a); //","int foo(int a);\n#x //"}; judge(pre[sym_choice(6,"before")]+x+"int mid(int b);\n/* end */\nint bar(int c); // z\n");
#elif MODE==2 // white space, line ends, byte order mark, extern
  std::string in,w=h_symset(N," \t\n\r\v\f","space"); unsigned p=sym_choice(NT+1,"pos"); bool bom=sym_choice(2,"bom"); unsigned ex=sym_choice(4,"extern");
  for(unsigned i=0;i<NT;i++){ if(i==p) in+=w; if((i==0&&(ex&1))||(i==16&&(ex&2))) in+="extern "+(p%2?w:std::string()); in+=TOK[i][0]==' '?w:std::string(TOK[i]); } if(p==NT) in+=w;
  if(bom) in="\xEF\xBB\xBF"+in; equal(in,at(NT,""));
#elif MODE==3 // type blocks
  static const char *const KW[]={"struct","union","enum","typedef","extern struct","extern union"}; std::string x=h_symset(N,"{};=a*[,'\"<:-","body"), kw=KW[sym_choice(6,"kw")]; unsigned p=sym_choice(2,"pos"); std::string blk=kw+" x {"+x+"} y;\n";
  // where does it end?
  int d=0; size_t i=kw.size(),e=0; for(;i<blk.size();i++){ char c=blk[i]; if(c=='"'||c=='\''){ size_t j=i+1; while(j<blk.size()&&blk[j]!=c&&blk[j]!='\n')j++; if(j<blk.size()&&blk[j]==c) i=j; continue; } if(c=='{')d++; if(c=='}')d--; if(c==';'&&d<=0){ e=i+1; break; } }
  if(!e){ sym_cover("unclosed"); return; } std::string rest=blk.substr(e); if(rest!="\n") { sym_cover("rest"); }
  std::string pre=p?"int foo(int a);\n":"", post=rest+"int bar(int b);\nint obj;\n"; equal(pre+blk.substr(0,e)+post,pre+post);
#elif MODE==4 // CRLF and LF line ends, realistic text with one arbitrary byte
  static const char *const T[]={"/* head\n * // text \n **/\n","#ifdef X /* a\n b */ && 1 // \\\n#endif","\n#define F(x) \\\n  int x; \\\n\n","#define S \"/* \\\" \" '\"' /* c */\n","\n\n   #  include <x.h>\n","typedef struct _m { struct { int a:3; } b; } *m_t;\n","enum { A = 1 << 2, B = ';', C = \"}\"[0] };\n","// c \\\n still \\\r\n\n","# /\\\n* x *\\\n/ y\n","union u; struct s { union { int (*f)(void); }; };\n"};
  static const unsigned NTX=10; std::string t; unsigned k=sym_choice(NTX,"text"),k2=sym_choice(NTX,"text2"); std::string a=T[k],b=T[k2]; if(EDIT){ size_t p=sym_choice(a.size(),"at"); std::string c=h_symset(1,"\\/*\n\"' #a","ch"); if(sym_choice(2,"ins")) a.insert(p,c); else a[p]=c[0]; }
  std::string in="int foo(const char *a, ...);\n"+a+"\nchar *mid(void);\n"+b+"\nextern int obj[3];\nvoid bar(int b);\n"; 
  bool cr=sym_choice(2,"crlf"); 
  if(!EDIT){ std::string c; for(char x:in){ if(cr&&x=='\n') c+='\r'; c+=x; } equal(c,"int foo(const char *a, ...);\nchar *mid(void);\nint obj[3];\nvoid bar(int b);\n"); }
  else { if(k==5||k==6||k==9) sym_prune(); if(k2==5||k2==6||k2==9) sym_prune(); if(k2!=(k+1)%5) sym_prune(); if(cr) sym_prune(); judge(in); }
#endif
}
