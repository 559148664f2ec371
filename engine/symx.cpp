// symx: a symbolic executor for LLVM IR (see DESIGN.md).
#include "decode.h"
#include "state.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <cmath>
#include <deque>

ExprPool P; Obj* FREED; Solver SV; Prog PG;
static bool DBG=false;

struct Shared {
    std::atomic<int> active, nproc, stop, crashed, bugs, incomplete; std::atomic<u64> paths, pruned, forks, instrs, queries, sat, unsat, unknown, cacheHits, solveUs, domDec, asserts, assertQ, assertTriv, pathChecks, sampled, bugPaths, maxInstr, killedLimit;
    std::atomic<u8> fnHit[65536]; std::atomic<u32> cover[256]; char coverName[256][64]; std::atomic<int> ncover; std::atomic_flag lk; 
    char unsup[4096];
};
static Shared* SH;
struct Opts { int jobs=8; double budget=300; std::string out="."; u64 maxInstr=400000000ull; int maxDepth=20000; int samples=20; int sampleStride=1; std::string entry="harness_main"; bool progress=false; int maxBugs=12; u64 memMB=3500; u64 maxPaths=0; u64 seed=1; } O;
static double T0; static std::vector<State*> WL; static FILE* OUT; static bool isRoot=true;
static std::vector<Fn*> startup; static std::vector<Fn*> progCtors; static Mem initMem; static std::vector<u32> progGlobals; static Fn* FN_TERM=nullptr;
static u64 TI_CLASS,TI_SI,TI_VMI; static u64 localPaths=0;
static std::vector<std::string> bugKeys;

// ---------------------------------------------------------------- output helpers
static std::string jesc(const std::string&s){ std::string r; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string where(const State&S){
    std::string r; int n=0;
    for(int i=(int)S.st.size()-1;i>=0&&n<12;i--){ Frame*f=S.st[i]; if(f->pc>=f->fn->code.size()) continue; const Instruction*I=f->fn->code[f->pc].ir; std::string nm=demangle(f->fn->name); if(nm.size()>90) nm=nm.substr(0,90)+"..."; r+=nm; if(I&&I->getDebugLoc()){ auto*L=I->getDebugLoc().get(); r+=" @"+L->getFilename().str()+":"+std::to_string(L->getLine()); } r+=" <- "; n++; }
    return r; }
static std::string drawsJson(const State&S,const std::map<u32,u8>*over=nullptr){
    std::string r="["; bool first=true; for(auto&d:S.draws){ if(!first) r+=","; first=false; r+="[\""+jesc(d.name)+"\",\""; char b[4]; for(u32 i=0;i<d.n;i++){ u8 v=S.sy[d.first+i].model; if(over){auto it=over->find(d.first+i); if(it!=over->end()) v=it->second;} snprintf(b,4,"%02x",v); r+=b; } r+="\"]"; } return r+"]"; }
static void lockSh(){ while(SH->lk.test_and_set()) usleep(10); } static void unlockSh(){ SH->lk.clear(); }
static void report(State&S,const char*kind,const std::string&msg,const std::map<u32,u8>*over=nullptr){
    std::string w=where(S); std::string key=std::string(kind)+msg+w; int cnt=0; for(auto&k:bugKeys) if(k==key) cnt++; bugKeys.push_back(key);
    SH->bugPaths++;
    if(cnt<2){ fprintf(OUT,"{\"t\":\"bug\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"draws\":%s}\n",kind,jesc(msg).c_str(),jesc(w).c_str(),drawsJson(S,over).c_str()); fflush(OUT);
        if(++SH->bugs>=O.maxBugs) SH->stop=1; }
    if(DBG) fprintf(stderr,"BUG %s: %s\n  at %s\n  draws %s\n",kind,msg.c_str(),w.c_str(),drawsJson(S,over).c_str());
}
static void unsupported(State&S,const std::string&msg){ SH->incomplete|=2; lockSh(); if(strlen(SH->unsup)+msg.size()+2<sizeof SH->unsup&&!strstr(SH->unsup,msg.c_str())){ strcat(SH->unsup,msg.c_str()); strcat(SH->unsup,"\n"); } unlockSh(); if(DBG) fprintf(stderr,"UNSUPPORTED %s at %s\n",msg.c_str(),where(S).c_str()); }

struct Kill{};                    // path ends
// ---------------------------------------------------------------- constraints
static void updModel(State&S,const std::vector<std::pair<u32,u8>>&m){ for(auto&p:m) S.sy[p.first].model=p.second; }
static bool consHold(State&S){ for(E e:S.cons) if(!(SV.eval(e,S)&1)) return false; return true; }
// try to find a model for `cond` (width 1) being true; on success S.sy[].model of S is NOT changed, m gets the changes.
static bool isSingletonFree(State&S,u32 s){ return !S.sy[s].multi; }
static Dom truthSet(E e){ Dom t; memset(&t,0,sizeof t); for(int v=0;v<256;v++) if(e->tab[v]&1) t.set(v); return t; }
static int feasible(State&S,V cond,std::vector<std::pair<u32,u8>>&m){
    m.clear(); if(!cond.e) return cond.c&1; E e=cond.e;
    if(SV.eval(e,S)&1) return 1;
    if(e->single){ u32 s=e->sym; bool any=false; for(int v=0;v<256;v++) if(S.sy[s].d.has(v)&&(e->tab[v]&1)){ any=true;
            if(isSingletonFree(S,s)){ m.push_back({s,(u8)v}); SH->domDec++; int q=SV.unary(S.sy[s].d,truthSet(e)); if(q!=1){ SH->incomplete|=q<0?4:8; return 0; } return 1; }
            u8 old=S.sy[s].model; S.sy[s].model=v; bool ok=consHold(S); S.sy[s].model=old; if(ok){ m.push_back({s,(u8)v}); return 1; } }
        if(!any){ SH->domDec++; int q=SV.unary(S.sy[s].d,truthSet(e)); if(q!=0) SH->incomplete|=q<0?4:8; return 0; } }
    int r=SV.check(S,e,&m); if(r<0){ SH->incomplete|=4; return 0; } return r; }
static void addCons(State&S,E e){ // e must be feasible; model already satisfies
    if(e->op==E_CONST) return;
    if(e->single){ Dom&d=S.sy[e->sym].d; for(int v=0;v<256;v++) if(!(e->tab[v]&1)) d.w[v>>6]&=~(1ull<<(v&63)); return; }
    if(e->op==E_AND){ addCons(S,e->a); addCons(S,e->b); return; }
    if(e->op==E_XOR&&e->b->op==E_CONST&&e->b->cval==1&&e->a->op==E_OR){ addCons(S,asE(mkNot(asV(e->a->a)),1)); addCons(S,asE(mkNot(asV(e->a->b)),1)); return; }
    if(e->op==E_XOR&&e->a->op==E_CONST&&e->a->cval==1&&e->b->op==E_OR){ addCons(S,asE(mkNot(asV(e->b->a)),1)); addCons(S,asE(mkNot(asV(e->b->b)),1)); return; }
    for(E x:S.cons) if(x==e) return;
    S.cons.push_back(e); if(e->deps) for(u32 x:*e->deps) S.sy[x].multi=true; }
static V simp(State&S,V v){ // use the domain of a single symbol
    if(!v.e||!v.e->single) return v; const Dom&d=S.sy[v.e->sym].d; int f=d.first(); if(f<0) return v; u64 x=v.e->tab[f];
    for(int k=0;k<4;k++){ u64 w=d.w[k]; while(w){ int b=__builtin_ctzll(w); w&=w-1; if(v.e->tab[k*64+b]!=x) return v; } }
    if(v.e->w==1){ Dom t; memset(&t,0,sizeof t); for(int i=0;i<256;i++) if((v.e->tab[i]&1)!=(x&1)) t.set(i); if(SV.unary(d,t)!=0) SH->incomplete|=8; SH->domDec++; }
    return V(x); }
static State* cloneState(State&S){ S.forks++; SH->forks++; return new State(S); }
// returns 1 true,0 false; if both possible pushes a clone for the false side via `mk`
template<class F> static bool branch(State&S,V c,F onFalse){
    c=simp(S,c); if(!c.e) return c.c&1;
    std::vector<std::pair<u32,u8>> mt,mf; V nc=mkNot(c);
    int t=feasible(S,c,mt), f=feasible(S,nc,mf);
    if(t&&f){ State*o=cloneState(S); updModel(*o,mf); if(nc.e) addCons(*o,nc.e); onFalse(*o); WL.push_back(o); updModel(S,mt); addCons(S,c.e); return true; }
    if(t){ if(!c.e->single){} return true; } 
    if(f) return false;
    SH->pruned++; throw Kill(); }
// constrain a value to one concrete value (forking off the rest, which re-executes the current instruction)
static u64 concretize(State&S,V v,unsigned w){
    v=simp(S,v); if(!v.e) return v.c&maskw(w);
    if(!v.e->single){ // fix the one-byte parts one after the other: the constraints stay one-byte constraints
        std::vector<E> leaves,todo{v.e}; std::unordered_map<u32,bool> seen; bool ok=true;
        while(!todo.empty()&&ok){ E e=todo.back(); todo.pop_back(); if(!e||seen[e->id]) continue; seen[e->id]=true; if(seen.size()>400){ok=false;break;} if(e->op==E_TAB){ leaves.push_back(e); continue; } if(e->op==E_CONST) continue; if(e->a) todo.push_back(e->a); if(e->b) todo.push_back(e->b); if(e->c) todo.push_back(e->c); }
        if(ok&&leaves.size()<=16){ for(E l:leaves){ V lv(0,l); lv=simp(S,lv); if(!lv.e) continue; u64 x=SV.eval(l,S); branch(S,mkBin(E_EQ,l->w,lv,V(x)),[](State&){}); } return SV.eval(v.e,S)&maskw(w); } }
    u64 x=SV.eval(v.e,S); V c=mkBin(E_EQ,w,v,V(x)); branch(S,c,[](State&){}); return x; }

// ---------------------------------------------------------------- memory
static const char* kindName(u8 k){ static const char*n[]={"global","function","stack","malloc","new","new[]","exception","varargs","freed"}; return n[k]; }
static void memErr(State&S,const char*what,u64 a,u64 n){ char b[200]; u32 id=a>>32; Obj*o=S.mem.get(id); auto gi=PG.gname.find((u64)id<<32); snprintf(b,sizeof b,"%s of %llu bytes at %s object %s (size %u) offset %lld",what,(unsigned long long)n,!o?"no":o->kind==O_FREED?"freed":kindName(o->kind),gi!=PG.gname.end()?gi->second.c_str():"",o?o->size:0,(long long)(i32)(u32)a); 
    report(S,"memory",b); throw Kill(); }
static inline Obj* rd(State&S,u64 a,u64 n){ Obj*o=S.mem.get(a>>32); u64 off=(u32)a; if(!o||off+n>o->size||o->kind==O_FREED||o->kind==O_FUNC){ if(n==0) return nullptr; memErr(S,"invalid read",a,n); } return o; }
static inline Obj* wr(State&S,u64 a,u64 n){ Obj*o=S.mem.get(a>>32); u64 off=(u32)a; if(!o||off+n>o->size||o->kind==O_FREED||o->kind==O_FUNC){ if(n==0) return nullptr; memErr(S,"invalid write",a,n); } if(o->ro) memErr(S,"write to constant",a,n); return S.mem.getw(a>>32); }
static V loadBytes(const E*sym,const u8*data,unsigned n){
    // reassemble
    if(sym[0]&&sym[0]->op==E_EXTRACT&&sym[0]->k==0&&n>1){ E base=sym[0]->a; bool ok=true; for(unsigned i=1;i<n&&ok;i++) if(!sym[i]||sym[i]->op!=E_EXTRACT||sym[i]->a!=base||sym[i]->k!=8*i) ok=false; if(ok&&8*n<=base->w) return mkExtract(asV(base),base->w,0,8*n); }
    V r=sym[0]?V(0,sym[0]):V(data[0]); for(unsigned i=1;i<n;i++) r=mkConcat(sym[i]?V(0,sym[i]):V(data[i]),8,r,8*i); return r; }
static inline V load(State&S,u64 a,unsigned w){
    unsigned n=(w+7)/8; Obj*o=rd(S,a,n); u32 off=(u32)a;
    if(!o->sym){ u64 v=0; memcpy(&v,o->data+off,n); return V(v&maskw(w)); }
    bool any=false; for(unsigned i=0;i<n;i++) if(o->sym[off+i]){any=true;break;}
    if(!any){ u64 v=0; memcpy(&v,o->data+off,n); return V(v&maskw(w)); }
    V r=loadBytes(o->sym+off,o->data+off,n); if(w<8*n) r=mkExtract(r,8*n,0,w); return r; }
static inline void ensureSym(Obj*o){ if(!o->sym) o->sym=(E*)calloc(std::max(1u,o->size),sizeof(E)); }
static inline void store(State&S,u64 a,V v,unsigned w){
    unsigned n=(w+7)/8; Obj*o=wr(S,a,n); u32 off=(u32)a;
    if(!v.e){ u64 x=v.c&maskw(w); memcpy(o->data+off,&x,n); if(o->sym) for(unsigned i=0;i<n;i++) o->sym[off+i]=nullptr; return; }
    ensureSym(o); V z=mkZext(v,w,8*n); for(unsigned i=0;i<n;i++){ V b=mkExtract(z,8*n,8*i,8); o->sym[off+i]=b.e; o->data[off+i]=b.e?0:(u8)b.c; } }
static inline V byteAt(Obj*o,u32 off){ return o->sym&&o->sym[off]?V(0,o->sym[off]):V(o->data[off]); }
static u64 allocObj(State&S,u64 size,u8 kind){ if(size>0x7fffffff) size=0x7fffffff; Obj*o=newObj(size,kind); memset(o->data,0xA5,size); return (u64)S.mem.add(o)<<32; }
static void copyMem(State&S,u64 d,u64 s,u64 n){
    if(!n) return; Obj*so=rd(S,s,n); u32 soff=(u32)s; u8 small[256]; u8*tmp=n<=256?small:(u8*)malloc(n); memcpy(tmp,so->data+soff,n); E*te=nullptr;
    if(so->sym){ bool any=false; for(u64 i=0;i<n;i++) if(so->sym[soff+i]){any=true;break;} if(any){ te=(E*)malloc(n*sizeof(E)); memcpy(te,so->sym+soff,n*sizeof(E)); } }
    struct G{u8*t;u8*sm;E*e;~G(){ if(t!=sm) free(t); free(e);} } g{tmp,small,te};
    Obj*o=wr(S,d,n); u32 off=(u32)d; memcpy(o->data+off,tmp,n); if(te){ ensureSym(o); memcpy(o->sym+off,te,n*sizeof(E)); } else if(o->sym) memset(o->sym+off,0,n*sizeof(E)); }
static std::string cstr(State&S,u64 a){ std::string r; for(;;){ Obj*o=rd(S,a,1); V b=byteAt(o,(u32)a); u64 c=b.e?SV.eval(b.e,S):b.c; if(!c) return r; r+=(char)c; a++; if(r.size()>100000) return r; } }

// ---------------------------------------------------------------- frames
static void pushFrame(State&S,Fn*f,const V*args,u32 nargs,bool marker=false){
    if(!f->F||f->F->isDeclaration()){ unsupported(S,"call of undefined "+f->name); throw Kill(); }
    if(!f->decoded) PG.decode(f);
    if((int)S.st.size()>O.maxDepth){ report(S,"recursion","call depth limit"); throw Kill(); }
    Frame*x=newFrame(f,f->nslots); u32 n=std::min(nargs,f->nparams); for(u32 i=0;i<n;i++) x->regs[i]=args[i]; x->marker=marker; S.st.push_back(x);
    if(f->prog&&!SH->fnHit[f->id&65535]) SH->fnHit[f->id&65535]=1; }
static void releaseFrame(State&S,Frame*f){ if(f->allocas) for(u32 id:*f->allocas) S.mem.drop(id); if(f->va) S.mem.drop(f->va>>32); decFrame(f); }
static void takeEdge(Frame*f,const Edge&e){
    if(e.overlap){ V tmp[64]; std::vector<V> big; V*t=tmp; if(e.mv.size()>64){big.resize(e.mv.size()); t=big.data();} size_t i=0; for(auto&m:e.mv) t[i++]=m.src>=0?f->regs[m.src]:f->fn->consts[~m.src]; i=0; for(auto&m:e.mv) f->regs[m.dst]=t[i++]; }
    else for(auto&m:e.mv) f->regs[m.dst]=m.src>=0?f->regs[m.src]:f->fn->consts[~m.src];
    f->pc=e.target; }

// ---------------------------------------------------------------- exceptions
static u64 ldc(State&S,u64 a){ V v=load(S,a,64); return v.e?SV.eval(v.e,S):v.c; }
static bool upcast(State&S,u64 from,u64 to,i64&off,int depth=0){
    if(from==to) return true; if(depth>20) return false; Obj*o=S.mem.get(from>>32); if(!o||o->size<16||o->kind==O_FREED) return false; u64 vt=ldc(S,from);
    if(vt==TI_SI) return upcast(S,ldc(S,from+16),to,off,depth+1);
    if(vt==TI_VMI){ u32 n=(u32)(ldc(S,from+16)>>32); for(u32 i=0;i<n;i++){ u64 b=ldc(S,from+24+16*i); i64 of=(i64)ldc(S,from+32+16*i); i64 o2=off+((of&1)?0:(of>>8)); if(upcast(S,b,to,o2,depth+1)){ off=o2; return true; } } }
    return false; }
static ExcInfo* findExc(State&S,u64 obj){ for(auto&e:S.exc) if(e.obj==obj) return &e; return nullptr; }
static u32 typeId(u64 t){ return t?(u32)(t>>32)*8+(u32)(t&7)+1:0x7ffffff0; }
// returns 0 none, 1 handler, 2 cleanup ; sets sel
static int lpMatch(State&S,Frame*f,u64 type,u32&sel){
    const Inst&I=f->fn->code[f->pc]; if(I.op!=I_CALL||!I.call->invoke) return 0; const Inst&L=f->fn->code[I.call->unwind.target]; if(L.op!=I_LPAD) return 0;
    for(auto&c:*L.clauses){ if(!c.filter){ i64 off=0; if(c.any||upcast(S,type,c.type,off)){ sel=c.any?0x7ffffff0:typeId(c.type); return 1; } }
        else { bool in=false; for(u64 t:c.ftypes){ i64 off=0; if(upcast(S,type,t,off)) in=true; } if(!in){ sel=(u32)-1; return 1; } } }
    if(L.cleanup){ sel=0; return 2; } return 0; }
static void unwind(State&S,u64 obj,bool phase1){
    ExcInfo*x=findExc(S,obj); if(!x){ report(S,"eh","throw of unknown exception object"); throw Kill(); } u64 type=x->type; u32 sel;
    if(phase1){ bool found=false; for(int i=S.st.size()-1;i>=0;i--){ if(lpMatch(S,S.st[i],type,sel)==1){found=true;break;} if(S.st[i]->marker) break; }
        if(!found){ if(!FN_TERM){ report(S,"uncaught","uncaught exception"); throw Kill(); } pushFrame(S,FN_TERM,nullptr,0); return; } }
    bool first=phase1;
    for(;;){ if(S.st.empty()){ report(S,"uncaught","unwound past the entry"); throw Kill(); }
        Frame*f=S.st.back(); int r=lpMatch(S,f,type,sel);
        if(r){ f=S.top(); f->ehObj=obj; f->ehSel=sel; takeEdge(f,f->fn->code[f->pc].call->unwind); return; }
        (void)first; bool mk=f->marker; S.st.pop_back(); releaseFrame(S,f); if(mk){ report(S,"uncaught","exception crossed program boundary"); throw Kill(); } } }

// ---------------------------------------------------------------- natives
enum NRes { N_DONE, N_PUSHED };
typedef NRes (*Native)(State&S,const Inst&I,V*a,u32 n,V&ret);
static std::unordered_map<std::string,Native> NT;
static u32 newSyms(State&S,u32 n,const Dom&d,const char*name){ u32 f=S.sy.size(); for(u32 i=0;i<n;i++) S.sy.push_back({d,(u8)d.first(),false}); S.draws.push_back({name,f,n}); return f; }
static const char* internName(State&S,u64 p){ static std::set<std::string> pool; if(!p) return "?"; return pool.insert(cstr(S,p)).first->c_str(); }
static E symE(u32 s){ u64 t[256]; for(int i=0;i<256;i++) t[i]=i; return P.tab(s,8,t).e; }
static V symByte(State&S,u32 s){ const Dom&d=S.sy[s].d; if(d.count()==1) return V((u64)d.first()); return V(0,symE(s)); }
static V symTab(u32 s,u64 add){ u64 t[256]; for(int i=0;i<256;i++) t[i]=(u64)i+add; return P.tab(s,64,t); }
static int checkAssert(State&S,V c,const std::string&msg){
    SH->asserts++; V r=simp(S,c); if(!r.e){ if(r.c&1){ SH->assertTriv++; return 1; } report(S,"assert",msg); throw Kill(); }
    V nc=mkNot(r); std::vector<std::pair<u32,u8>> m; SH->assertQ++; int f= nc.e? SV.check(S,nc.e,&m) : (int)(nc.c&1);
    if(f<0){ SH->incomplete|=4; return 1; }
    if(f){ std::map<u32,u8> ov; for(auto&p:m) ov[p.first]=p.second; report(S,"assert",msg,&ov); std::vector<std::pair<u32,u8>> mt; if(feasible(S,r,mt)!=1) throw Kill(); updModel(S,mt); addCons(S,r.e); }
    return 1; }
static V cmpBytes(State&S,u64 p,u64 q,u64 n,int mode,const u8*map){ // mode 0: memcmp, 1: stops at nul (both)
    // gather
    std::vector<std::pair<V,V>> v; bool ended=mode==0;
    for(u64 i=0;i<n;i++){ Obj*a=rd(S,p+i,1); V x=simp(S,byteAt(a,(u32)(p+i))); Obj*b=rd(S,q+i,1); V y=simp(S,byteAt(b,(u32)(q+i)));
        if(map){ auto mp=[&](V z){ if(!z.e) return V(map[z.c&255]); if(!z.e->single) return z; u64 t[256]; for(int k=0;k<256;k++) t[k]=map[z.e->tab[k]&255]; return P.tab(z.e->sym,8,t); }; x=mp(x); y=mp(y); }
        v.push_back({x,y});
        if(!x.e&&!y.e&&x.c!=y.c) { ended=true; break; }
        if(mode==1){ // possible nul in both?
            bool xz=!x.e&&x.c==0, yz=!y.e&&y.c==0; if(xz||yz){ ended=true; break; }
            auto maybe0=[&](V z){ if(!z.e) return z.c==0; if(!z.e->single) return true; for(int k=0;k<256;k++) if(S.sy[z.e->sym].d.has(k)&&z.e->tab[k]==0) return true; return false; };
            if(maybe0(x)) { u64 c=0; (void)c; if(branch(S,mkBin(E_EQ,8,x,V(0)),[](State&){})){ v.back().first=V(0); ended=true; break; } }
            if(maybe0(y)) { if(branch(S,mkBin(E_EQ,8,y,V(0)),[](State&){})){ v.back().second=V(0); ended=true; break; } }
        } }
    (void)ended; V r(0);
    for(size_t i=v.size();i-->0;){ V x=v[i].first,y=v[i].second; V eq=mkBin(E_EQ,8,x,y); if(!eq.e&&(eq.c&1)) continue; V lt=mkIte(32,mkBin(E_ULT,8,x,y),V(0xffffffffull),V(1)); r=mkIte(32,eq,r,lt); }
    return r; }
static u8 LOWER[256];
static bool isLiveHeap(Obj*o){ return o&&(o->kind==O_HEAP||o->kind==O_NEW||o->kind==O_NEWARR); }
static void doFree(State&S,u64 p,u8 kind){ if(!p) return; u32 id=p>>32; Obj*o=S.mem.get(id); if(!o||(u32)p||!isLiveHeap(o)){ memErr(S,o&&o->kind==O_FREED?"double free":"invalid free",p,0); } if(o->kind!=kind&&kind!=255) memErr(S,"mismatched deallocation",p,0); S.mem.drop(id); S.heapLive--; }
static u64 doAlloc(State&S,u64 n,u8 kind){ S.heapLive++; return allocObj(S,n,kind); }
#define NATIVE(nm) static NRes nm(State&S,const Inst&I,V*a,u32 n,V&ret)
#define C64(i) concretize(S,a[i],64)
#define C32(i) concretize(S,a[i],32)
static const u64 HUGE_ALLOC=1ull<<30;
NATIVE(n_malloc){ u64 s=C64(0); if(s>HUGE_ALLOC) ret=V(0); else ret=V(doAlloc(S,s,O_HEAP)); return N_DONE; }
NATIVE(n_calloc){ u64 s=C64(0)*C64(1); if(s>HUGE_ALLOC){ret=V(0);return N_DONE;} u64 p=doAlloc(S,s,O_HEAP); memset(S.mem.getw(p>>32)->data,0,s); ret=V(p); return N_DONE; }
NATIVE(n_new){ u64 s=C64(0); if(s>HUGE_ALLOC){ report(S,"memory","huge operator new"); throw Kill(); } ret=V(doAlloc(S,s,O_NEW)); return N_DONE; }
NATIVE(n_newa){ u64 s=C64(0); if(s>HUGE_ALLOC){ report(S,"memory","huge operator new[]"); throw Kill(); } ret=V(doAlloc(S,s,O_NEWARR)); return N_DONE; }
NATIVE(n_free){ doFree(S,C64(0),O_HEAP); return N_DONE; }
NATIVE(n_del){ doFree(S,C64(0),O_NEW); return N_DONE; }
NATIVE(n_dela){ doFree(S,C64(0),O_NEWARR); return N_DONE; }
NATIVE(n_realloc){ u64 p=C64(0), s=C64(1); if(!p){ ret=V(doAlloc(S,s,O_HEAP)); return N_DONE; } Obj*o=S.mem.get(p>>32); if(!o||(u32)p||o->kind!=O_HEAP) memErr(S,"invalid realloc",p,s); u64 q=doAlloc(S,s,O_HEAP); copyMem(S,q,p,std::min<u64>(s,o->size)); doFree(S,p,O_HEAP); ret=V(q); return N_DONE; }
NATIVE(n_memcpy){ u64 d=C64(0),s=C64(1),k=C64(2); copyMem(S,d,s,k); ret=V(d); return N_DONE; }
NATIVE(n_mempcpy){ u64 d=C64(0),s=C64(1),k=C64(2); copyMem(S,d,s,k); ret=V(d+k); return N_DONE; }
static void setMem(State&S,u64 d,V v,u64 k){ if(!k) return; Obj*o=wr(S,d,k); u32 off=(u32)d; V b=v.e?mkExtract(v,v.e->w,0,8):V(v.c&255); if(b.e){ ensureSym(o); for(u64 i=0;i<k;i++) o->sym[off+i]=b.e; } else { memset(o->data+off,(int)b.c,k); if(o->sym) memset(o->sym+off,0,k*sizeof(E)); } }
NATIVE(n_memset){ u64 d=C64(0),k=C64(2); setMem(S,d,a[1],k); ret=V(d); return N_DONE; }
NATIVE(n_memcmp){ u64 p=C64(0),q=C64(1),k=C64(2); if(k){ rd(S,p,k); rd(S,q,k);} ret=cmpBytes(S,p,q,k,0,nullptr); return N_DONE; }
NATIVE(n_strcmp){ u64 p=C64(0),q=C64(1); ret=cmpBytes(S,p,q,~0ull,1,nullptr); return N_DONE; }
NATIVE(n_strncmp){ u64 p=C64(0),q=C64(1),k=C64(2); ret=cmpBytes(S,p,q,k,1,nullptr); return N_DONE; }
NATIVE(n_strcasecmp){ u64 p=C64(0),q=C64(1); ret=cmpBytes(S,p,q,~0ull,1,LOWER); return N_DONE; }
NATIVE(n_strncasecmp){ u64 p=C64(0),q=C64(1),k=C64(2); ret=cmpBytes(S,p,q,k,1,LOWER); return N_DONE; }
NATIVE(n_strlen){ u64 p=C64(0); u64 i=0; for(;;i++){ Obj*o=rd(S,p+i,1); V b=byteAt(o,(u32)(p+i)); if(!b.e){ if(!b.c) break; continue; } if(branch(S,mkBin(E_EQ,8,b,V(0)),[](State&){})) break; } ret=V(i); return N_DONE; }
NATIVE(n_strnlen){ u64 p=C64(0),k=C64(1); u64 i=0; for(;i<k;i++){ Obj*o=rd(S,p+i,1); V b=byteAt(o,(u32)(p+i)); if(branch(S,mkBin(E_EQ,8,b,V(0)),[](State&){})) break; } ret=V(i); return N_DONE; }
NATIVE(n_memchr){ u64 p=C64(0),k=C64(2); V c=a[1].e?mkExtract(a[1],32,0,8):V(a[1].c&255); for(u64 i=0;i<k;i++){ Obj*o=rd(S,p+i,1); if(branch(S,mkBin(E_EQ,8,byteAt(o,(u32)(p+i)),c),[](State&){})){ ret=V(p+i); return N_DONE; } } ret=V(0); return N_DONE; }
NATIVE(n_strchr){ u64 p=C64(0); V c=a[1].e?mkExtract(a[1],32,0,8):V(a[1].c&255); for(u64 i=0;;i++){ Obj*o=rd(S,p+i,1); V b=byteAt(o,(u32)(p+i)); if(branch(S,mkBin(E_EQ,8,b,c),[](State&){})){ ret=V(p+i); return N_DONE; } if(branch(S,mkBin(E_EQ,8,b,V(0)),[](State&){})){ ret=V(0); return N_DONE; } } }
NATIVE(n_strrchr){ u64 p=C64(0); V c=a[1].e?mkExtract(a[1],32,0,8):V(a[1].c&255); u64 last=0; for(u64 i=0;;i++){ Obj*o=rd(S,p+i,1); V b=byteAt(o,(u32)(p+i)); if(branch(S,mkBin(E_EQ,8,b,c),[](State&){})) last=p+i; if(branch(S,mkBin(E_EQ,8,b,V(0)),[](State&){})){ ret=V(last); return N_DONE; } } }
// exceptions
NATIVE(n_excalloc){ ret=V(allocObj(S,C64(0),O_EXC)); return N_DONE; }
NATIVE(n_excfree){ S.mem.drop(C64(0)>>32); return N_DONE; }
NATIVE(n_throw){ S.exc.push_back({C64(0),C64(1),C64(2),0}); S.uncaught++; unwind(S,S.exc.back().obj,true); return N_PUSHED; }
NATIVE(n_begincatch){ u64 o=C64(0); ExcInfo*x=findExc(S,o); if(!x){ ret=V(o); return N_DONE; } if(x->handlers<0) x->handlers=-x->handlers; x->handlers++; S.caught.push_back(o); S.uncaught--; ret=V(o); return N_DONE; }
static void destroyExc(State&S,u64 o,const Inst*I,bool&pushed){ for(size_t i=0;i<S.exc.size();i++) if(S.exc[i].obj==o){ u64 d=S.exc[i].dtor; S.exc.erase(S.exc.begin()+i); if(d){ auto it=PG.fnAt.find(d); if(it!=PG.fnAt.end()){ V arg(o); pushFrame(S,it->second,&arg,1); pushed=true; S.st.back()->onret=1; return; } } S.mem.drop(o>>32); return; } }
NATIVE(n_endcatch){ if(S.caught.empty()) return N_DONE; u64 o=S.caught.back(); S.caught.pop_back(); ExcInfo*x=findExc(S,o); if(!x) return N_DONE; if(x->handlers<0){ x->handlers++; return N_DONE; } if(--x->handlers==0){ bool pushed=false; destroyExc(S,o,&I,pushed); if(pushed) return N_PUSHED; } return N_DONE; }
NATIVE(n_rethrow){ if(S.caught.empty()){ if(FN_TERM) pushFrame(S,FN_TERM,nullptr,0); else { report(S,"eh","rethrow without exception"); throw Kill(); } return N_PUSHED; } u64 o=S.caught.back(); ExcInfo*x=findExc(S,o); x->handlers=-x->handlers; S.uncaught++; unwind(S,o,true); return N_PUSHED; }
NATIVE(n_getexc){ ret=a[0]; return N_DONE; }
NATIVE(n_uncaughts){ ret=V(S.uncaught); return N_DONE; }
NATIVE(n_uncaught){ ret=V(S.uncaught>0); return N_DONE; }
NATIVE(n_curexc){ ret=V(S.caught.empty()?0:S.caught.back()); return N_DONE; }
NATIVE(n_exctype){ ret=V(0); if(!S.caught.empty()){ ExcInfo*x=findExc(S,S.caught.back()); if(x) ret=V(x->type);} else if(S.uncaught&&!S.exc.empty()) ret=V(S.exc.back().type); return N_DONE; }
NATIVE(n_dyncast){ u64 p=C64(0); u64 dst=C64(2); if(!p){ret=V(0);return N_DONE;} u64 vt=ldc(S,p); i64 top=(i64)ldc(S,vt-16); u64 ty=ldc(S,vt-8); u64 whole=p+top; i64 off=0; if(upcast(S,ty,dst,off)) ret=V(whole+off); else ret=V(0); return N_DONE; }
// harness API
NATIVE(n_sbytes){ u64 p=C64(0),k=C64(1); const char*nm=internName(S,C64(2)); u32 f=newSyms(S,k,fullDom(),nm); Obj*o=wr(S,p,k); ensureSym(o); for(u64 i=0;i<k;i++){ o->sym[(u32)p+i]=symE(f+i); } return N_DONE; }
NATIVE(n_sset){ u64 p=C64(0),k=C64(1),sp=C64(2),sn=C64(3); Dom d; memset(&d,0,sizeof d); for(u64 i=0;i<sn;i++) d.set(rd(S,sp+i,1)->data[(u32)(sp+i)]); const char*nm=internName(S,C64(4)); u32 f=newSyms(S,k,d,nm); Obj*o=wr(S,p,k); ensureSym(o); for(u64 i=0;i<k;i++){ V b=symByte(S,f+i); o->sym[(u32)p+i]=b.e; o->data[(u32)p+i]=b.e?0:(u8)b.c; } return N_DONE; }
NATIVE(n_srange){ u64 lo=C32(0),hi=C32(1); const char*nm=internName(S,C64(2)); Dom d; memset(&d,0,sizeof d); for(u64 i=0;i<=hi-lo&&i<256;i++) d.set(i); u32 f=newSyms(S,1,d,nm); ret=mkExtract(symTab(f,lo),64,0,32); if(d.count()==1) ret=V(lo); return N_DONE; }
NATIVE(n_schoice){ u64 k=C32(0); const char*nm=internName(S,C64(1)); if(k<=1){ Dom d; memset(&d,0,sizeof d); d.set(0); newSyms(S,1,d,nm); ret=V(0); return N_DONE; }
    // fork into k states, each continuing after this call
    Frame*f=S.top(); Dom d; memset(&d,0,sizeof d); for(u64 i=0;i<k;i++) d.set(i); u32 s=newSyms(S,1,d,nm); 
    for(u64 i=k-1;i>=1;i--){ State*o=cloneState(S); Dom e; memset(&e,0,sizeof e); e.set(i); o->sy[s].d=e; o->sy[s].model=i; Frame*g=o->top(); if(I.dst>=0) g->regs[I.dst]=V(i); if(I.call->invoke) takeEdge(g,I.call->normal); else g->pc++; WL.push_back(o); }
    Dom e; memset(&e,0,sizeof e); e.set(0); S.sy[s].d=e; S.sy[s].model=0; (void)f; ret=V(0); return N_DONE; }
NATIVE(n_assume){ V c=mkExtract(a[0],32,0,32); c=mkNot(mkBin(E_EQ,32,c,V(0))); c=simp(S,c); if(!c.e){ if(!(c.c&1)){ SH->pruned++; throw Kill(); } return N_DONE; } std::vector<std::pair<u32,u8>> m; if(feasible(S,c,m)!=1){ SH->pruned++; throw Kill(); } updModel(S,m); addCons(S,c.e); return N_DONE; }
NATIVE(n_assert){ V c=mkNot(mkBin(E_EQ,32,a[0],V(0))); checkAssert(S,c,cstr(S,C64(1))); return N_DONE; }
NATIVE(n_asserteqm){ u64 p=C64(0),q=C64(1),k=C64(2); V r=cmpBytes(S,p,q,k,0,nullptr); checkAssert(S,mkBin(E_EQ,32,r,V(0)),cstr(S,C64(3))); return N_DONE; }
NATIVE(n_fail){ SH->asserts++; report(S,"assert",cstr(S,C64(0))); throw Kill(); }
NATIVE(n_cover){ std::string s=cstr(S,C64(0)); const char*nm=internName(S,C64(0)); (void)nm; lockSh(); int k=-1,c=SH->ncover; for(int i=0;i<c;i++) if(s==SH->coverName[i]) k=i; if(k<0&&c<256){ k=c; strncpy(SH->coverName[k],s.c_str(),63); SH->ncover=c+1; } unlockSh(); if(k>=0) S.covers.push_back({SH->coverName[k],(u32)k}); return N_DONE; }
NATIVE(n_observe){ const char*l=internName(S,C64(0)); u64 p=C64(1),k=C64(2); auto v=std::make_shared<std::vector<V>>(); for(u64 i=0;i<k;i++){ Obj*o=rd(S,p+i,1); v->push_back(byteAt(o,(u32)(p+i))); } S.obs.push_back({l,v}); return N_DONE; }
NATIVE(n_concrete){ ret=V(C64(0)); return N_DONE; }
NATIVE(n_issym){ ret=V(simp(S,a[0]).e!=nullptr); return N_DONE; }
NATIVE(n_prune){ SH->pruned++; throw Kill(); }
NATIVE(n_limit){ u64 k=C64(0); S.limit=k?S.instr+k:0; return N_DONE; }
NATIVE(n_ninstr){ ret=V(S.instr); return N_DONE; }
NATIVE(n_heaplive){ ret=V(S.heapLive); return N_DONE; }
NATIVE(n_print){ u64 p=C64(0),k=C64(1); std::string s; for(u64 i=0;i<k;i++){ V b=byteAt(rd(S,p+i,1),(u32)(p+i)); if(b.e&&simp(S,b).e) s+="\xc2\xbf"; else s+=(char)simp(S,b).c; } fprintf(stderr,"[print] %s\n",s.c_str()); return N_DONE; }
NATIVE(n_callmarked){ u64 f=C64(0); auto it=PG.fnAt.find(f); if(it==PG.fnAt.end()){ report(S,"memory","bad function pointer"); throw Kill(); } pushFrame(S,it->second,a+1,n-1,true); return N_PUSHED; }
static void doReturn(State&S,const V*v,u32 n);
NATIVE(n_exitmarked){ V code=a[0]; for(;;){ if(S.st.empty()){ report(S,"exit","exit outside of the program"); throw Kill(); } Frame*f=S.st.back(); if(f->marker) break; S.st.pop_back(); releaseFrame(S,f); } S.exc.clear(); S.caught.clear(); S.uncaught=0; doReturn(S,&code,1); return N_PUSHED; }
NATIVE(n_inmarked){ ret=V(0); for(auto f:S.st) if(f->marker) ret=V(1); return N_DONE; }
NATIVE(n_progreset){ for(u32 id:progGlobals){ Obj*src=initMem.get(id); Obj*o=newObj(src->size,src->kind); o->ro=src->ro; o->prog=src->prog; memcpy(o->data,src->data,src->size); S.mem.set(id,o); } return N_DONE; }
NATIVE(n_nctors){ ret=V(progCtors.size()); return N_DONE; }
NATIVE(n_ctor){ u64 i=C32(0); pushFrame(S,progCtors.at(i),nullptr,0); return N_PUSHED; }
NATIVE(n_purevirt){ report(S,"memory","pure virtual call"); throw Kill(); }

static void initNatives(){
    for(int i=0;i<256;i++) LOWER[i]=i>='A'&&i<='Z'?i+32:i;
    auto&m=NT; m["malloc"]=n_malloc;m["calloc"]=n_calloc;m["realloc"]=n_realloc;m["free"]=n_free;
    m["_Znwm"]=n_new;m["_Znam"]=n_newa;m["_ZdlPv"]=n_del;m["_ZdlPvm"]=n_del;m["_ZdaPv"]=n_dela;m["_ZdaPvm"]=n_dela;m["_ZnwmSt11align_val_t"]=n_new;m["_ZdlPvmSt11align_val_t"]=n_del;m["_ZdlPvSt11align_val_t"]=n_del;m["_ZnwmRKSt9nothrow_t"]=n_new;m["_ZdlPvRKSt9nothrow_t"]=n_del;m["_ZnamRKSt9nothrow_t"]=n_newa;
    m["memcpy"]=n_memcpy;m["memmove"]=n_memcpy;m["mempcpy"]=n_mempcpy;m["memset"]=n_memset;m["memcmp"]=n_memcmp;m["bcmp"]=n_memcmp;m["memchr"]=n_memchr;m["strlen"]=n_strlen;m["strnlen"]=n_strnlen;m["strcmp"]=n_strcmp;m["strncmp"]=n_strncmp;m["strcasecmp"]=n_strcasecmp;m["strncasecmp"]=n_strncasecmp;m["strchr"]=n_strchr;m["strrchr"]=n_strrchr;
    m["__cxa_allocate_exception"]=n_excalloc;m["__cxa_free_exception"]=n_excfree;m["__cxa_throw"]=n_throw;m["__cxa_begin_catch"]=n_begincatch;m["__cxa_end_catch"]=n_endcatch;m["__cxa_rethrow"]=n_rethrow;m["__cxa_get_exception_ptr"]=n_getexc;m["_ZSt18uncaught_exceptionv"]=n_uncaught;m["_ZSt19uncaught_exceptionsv"]=n_uncaughts;m["__dynamic_cast"]=n_dyncast;m["__cxa_pure_virtual"]=n_purevirt;
    m["sym_bytes"]=n_sbytes;m["sym_set"]=n_sset;m["sym_range"]=n_srange;m["sym_choice"]=n_schoice;m["sym_assume"]=n_assume;m["sym_assert"]=n_assert;m["sym_assert_eq_mem"]=n_asserteqm;m["sym_fail"]=n_fail;m["sym_cover"]=n_cover;m["sym_observe"]=n_observe;m["sym_concrete"]=n_concrete;m["sym_is_symbolic"]=n_issym;m["sym_prune"]=n_prune;m["sym_limit"]=n_limit;m["sym_ninstr"]=n_ninstr;m["sym_heap_live"]=n_heaplive;m["sym_print"]=n_print;m["sym_call_marked"]=n_callmarked;m["sym_exit_marked"]=n_exitmarked;m["sym_in_marked"]=n_inmarked;m["sym_prog_reset"]=n_progreset;m["sym_prog_nctors"]=n_nctors;m["sym_prog_ctor"]=n_ctor;m["sym_cur_exc"]=n_curexc;m["sym_cur_exc_type"]=n_exctype;
}
static std::vector<Native> nativeTab;

// ---------------------------------------------------------------- interpreter
static void pathEnd(State&S){
    // final satisfiability of the complete path condition, decided by the solver
    if(!S.cons.empty()||!S.sy.empty()){ std::vector<std::pair<u32,u8>> m; SH->pathChecks++; bool need=!S.cons.empty(); if(need){ int r=SV.check(S,nullptr,&m,true); if(r==0){ fprintf(stderr,"symx: internal: infeasible path reached its end\n"); SH->incomplete|=8; return; } } }
    u64 k=SH->paths++; localPaths++; for(auto&c:S.covers) SH->cover[c.second]++;
    u64 mi=SH->maxInstr; while(S.instr>mi&&!SH->maxInstr.compare_exchange_weak(mi,S.instr)){}
    if((k<6||(k>=8&&(int)(log((double)k)/log(1.25))!=(int)(log((double)k-1)/log(1.25))))&&(int)SH->sampled<O.samples){ SH->sampled++; u64 rs=mixh(O.seed*1000003+1,k);
        for(auto&y:S.sy) if(!y.multi){ int c=y.d.count(); if(c>1){ rs=mixh(rs,12345); int w=(rs>>17)%c; for(int v=0;v<256;v++) if(y.d.has(v)&&w--==0){ y.model=v; break; } } } // any value of the class will do: the native replay checks that

        fprintf(OUT,"{\"t\":\"path\",\"draws\":%s,\"instr\":%llu,\"obs\":[",drawsJson(S).c_str(),(unsigned long long)S.instr); bool f=true; for(auto&o:S.obs){ if(!f) fputc(',',OUT); f=false; fprintf(OUT,"[\"%s\",\"",jesc(o.label).c_str()); for(auto&v:*o.v) fprintf(OUT,"%02x",(unsigned)SV.evalV(v,S)&255); fprintf(OUT,"\"]"); } fprintf(OUT,"]}\n"); fflush(OUT); }
    if(O.maxPaths&&SH->paths>=O.maxPaths){ SH->stop=1; SH->incomplete|=16; }
}
static void startNext(State&S){ // run ctors then entry, then end
    if(S.phase<startup.size()){ Fn*f=startup[S.phase++]; pushFrame(S,f,nullptr,0); return; }
    pathEnd(S); throw Kill(); }
static void doReturn(State&S,const V*v,u32 n){
    Frame*f=S.st.back(); S.st.pop_back(); u8 onret=f->onret; V tmp[8]; std::vector<V> big; V*t=tmp; if(n>8){big.resize(n);t=big.data();} for(u32 i=0;i<n;i++) t[i]=v[i];
    releaseFrame(S,f); if(S.st.empty()){ startNext(S); return; }
    Frame*c=S.top(); const Inst&J=c->fn->code[c->pc]; (void)onret;
    if(J.op==I_CALL){ if(J.dst>=0) for(u32 i=0;i<J.call->nslots&&i<n;i++) c->regs[J.dst+i]=t[i]; if(J.call->invoke) takeEdge(c,J.call->normal); else c->pc++; } else c->pc++; }
static double asD(u64 b,unsigned w){ if(w==32){ float f; u32 x=b; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&b,8); return d; }
static u64 fromD(double d,unsigned w){ if(w==32){ float f=d; u32 x; memcpy(&x,&f,4); return x; } u64 b; memcpy(&b,&d,8); return b; }
static V icmpV(u8 pred,unsigned w,V a,V b){ switch(pred){ case CmpInst::ICMP_EQ:return mkBin(E_EQ,w,a,b); case CmpInst::ICMP_NE:return mkNot(mkBin(E_EQ,w,a,b)); case CmpInst::ICMP_ULT:return mkBin(E_ULT,w,a,b); case CmpInst::ICMP_ULE:return mkBin(E_ULE,w,a,b); case CmpInst::ICMP_UGT:return mkBin(E_ULT,w,b,a); case CmpInst::ICMP_UGE:return mkBin(E_ULE,w,b,a); case CmpInst::ICMP_SLT:return mkBin(E_SLT,w,a,b); case CmpInst::ICMP_SLE:return mkBin(E_SLE,w,a,b); case CmpInst::ICMP_SGT:return mkBin(E_SLT,w,b,a); default:return mkBin(E_SLE,w,b,a);} }
// load through a symbolic address that depends on one byte: build a table if all targets are readable and concrete
static bool tabLoad(State&S,V a,unsigned w,V&out){
    if(!a.e||!a.e->single) return false; const Dom&d=S.sy[a.e->sym].d; u64 t[256]; unsigned n=(w+7)/8; int f=-1;
    for(int v=0;v<256;v++) if(d.has(v)){ u64 ad=a.e->tab[v]; Obj*o=S.mem.get(ad>>32); u32 off=(u32)ad; if(!o||o->kind==O_FREED||o->kind==O_FUNC||(u64)off+n>o->size) return false; if(o->sym) for(unsigned i=0;i<n;i++) if(o->sym[off+i]) return false; u64 x=0; memcpy(&x,o->data+off,n); t[v]=x&maskw(w); if(f<0) f=v; }
    if(f<0) return false; for(int v=0;v<256;v++) if(!d.has(v)) t[v]=t[f]; out=P.tab(a.e->sym,w,t); return true; }

static bool intrinsic(State&S,Frame*f,const Inst&I,V*a,u32 n,V*ret){ // returns false if it's not handled here
    CallX&X=*I.call; unsigned w=X.w0;
    switch(X.intrin){
    case Intrinsic::memcpy:case Intrinsic::memmove:case Intrinsic::memcpy_inline:{ u64 d=C64(0),s=C64(1),k=C64(2); copyMem(S,d,s,k); return true; }
    case Intrinsic::memset:case Intrinsic::memset_inline:{ u64 d=C64(0),k=C64(2); setMem(S,d,a[1].e?a[1]:V(a[1].c&255),k); return true; }
    case Intrinsic::umax: ret[0]=mkIte(w,mkBin(E_ULT,w,a[0],a[1]),a[1],a[0]); return true; case Intrinsic::umin: ret[0]=mkIte(w,mkBin(E_ULT,w,a[0],a[1]),a[0],a[1]); return true;
    case Intrinsic::smax: ret[0]=mkIte(w,mkBin(E_SLT,w,a[0],a[1]),a[1],a[0]); return true; case Intrinsic::smin: ret[0]=mkIte(w,mkBin(E_SLT,w,a[0],a[1]),a[0],a[1]); return true;
    case Intrinsic::abs: ret[0]=mkIte(w,mkBin(E_SLT,w,a[0],V(0)),mkBin(E_SUB,w,V(0),a[0]),a[0]); return true;
    case Intrinsic::usub_sat: ret[0]=mkIte(w,mkBin(E_ULT,w,a[0],a[1]),V(0),mkBin(E_SUB,w,a[0],a[1])); return true;
    case Intrinsic::uadd_sat: { V s=mkBin(E_ADD,w,a[0],a[1]); ret[0]=mkIte(w,mkBin(E_ULT,w,s,a[0]),V(maskw(w)),s); return true; }
    case Intrinsic::uadd_with_overflow:{ V s=mkBin(E_ADD,w,a[0],a[1]); ret[0]=s; ret[1]=mkBin(E_ULT,w,s,a[0]); return true; }
    case Intrinsic::usub_with_overflow:{ ret[0]=mkBin(E_SUB,w,a[0],a[1]); ret[1]=mkBin(E_ULT,w,a[0],a[1]); return true; }
    case Intrinsic::umul_with_overflow:{ u64 x=concretize(S,a[0],w),y=concretize(S,a[1],w); __uint128_t m=(__uint128_t)x*y; ret[0]=V((u64)m&maskw(w)); ret[1]=V(m>maskw(w)); return true; }
    case Intrinsic::sadd_with_overflow:case Intrinsic::ssub_with_overflow:{ bool add=X.intrin==Intrinsic::sadd_with_overflow; V s=mkBin(add?E_ADD:E_SUB,w,a[0],a[1]); ret[0]=s; 
        V an=mkBin(E_SLT,w,a[0],V(0)),bn=mkBin(E_SLT,w,a[1],V(0)),sn=mkBin(E_SLT,w,s,V(0)); V diff=mkBin(E_XOR,1,an,sn); V same=add?mkNot(mkBin(E_XOR,1,an,bn)):mkBin(E_XOR,1,an,bn); ret[1]=mkBin(E_AND,1,same,diff); return true; }
    case Intrinsic::smul_with_overflow:{ i64 x=sx(concretize(S,a[0],w),w),y=sx(concretize(S,a[1],w),w); __int128 m=(__int128)x*y; ret[0]=V((u64)m&maskw(w)); ret[1]=V(m!=(__int128)sx((u64)m,w)); return true; }
    case Intrinsic::ctlz:case Intrinsic::cttz:case Intrinsic::ctpop:case Intrinsic::bswap:case Intrinsic::bitreverse:{
        auto f1=[&](u64 x)->u64{ x&=maskw(w); switch(X.intrin){ case Intrinsic::ctlz:return x?__builtin_clzll(x)-(64-w):w; case Intrinsic::cttz:return x?__builtin_ctzll(x):w; case Intrinsic::ctpop:return __builtin_popcountll(x); case Intrinsic::bswap:return __builtin_bswap64(x)>>(64-w); default:{u64 r=0; for(unsigned i=0;i<w;i++) if(x>>i&1) r|=1ull<<(w-1-i); return r;} } };
        if(a[0].e&&a[0].e->single){ u64 t[256]; for(int i=0;i<256;i++) t[i]=f1(a[0].e->tab[i]); ret[0]=P.tab(a[0].e->sym,w,t); } else ret[0]=V(f1(concretize(S,a[0],w))); return true; }
    case Intrinsic::fshl:case Intrinsic::fshr:{ u64 k=concretize(S,a[2],w)%w; if(X.intrin==Intrinsic::fshl){ ret[0]=k?mkBin(E_OR,w,mkBin(E_SHL,w,a[0],V(k)),mkBin(E_LSHR,w,a[1],V(w-k))):a[0]; } else ret[0]=k?mkBin(E_OR,w,mkBin(E_SHL,w,a[0],V(w-k)),mkBin(E_LSHR,w,a[1],V(k))):a[1]; return true; }
    case Intrinsic::objectsize: ret[0]=V(a[1].c?0:~0ull); return true;
    case Intrinsic::is_constant: ret[0]=V(0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::invariant_start: case Intrinsic::ptrmask: case Intrinsic::ssa_copy: ret[0]=a[0]; return true;
    case Intrinsic::vastart:{ u64 p=C64(0); store(S,p,V(48),32); store(S,p+4,V(176),32); store(S,p+8,V(f->va),64); store(S,p+16,V(0),64); return true; }
    case Intrinsic::vacopy:{ copyMem(S,C64(0),C64(1),24); return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::stacksave: ret[0]=V(0); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: report(S,"trap","trap executed"); throw Kill();
    case Intrinsic::ubsantrap: { static const char*nm[]={"add overflow","builtin unreachable","cfi","div/rem overflow","dynamic type","float cast","function type","implicit conversion","invalid builtin","invalid objc","load of invalid value","missing return","mul overflow","negate overflow","nullability arg","nullability return","nonnull arg","nonnull return","out of bounds","pointer overflow","shift out of bounds","sub overflow","type mismatch","alignment","vla bound"}; u64 k=C32(0)&255; report(S,"ub",std::string("undefined behaviour: ")+(k<25?nm[k]:"?")); throw Kill(); }
    case Intrinsic::eh_typeid_for: ret[0]=V(typeId(C64(0))); return true;
    case Intrinsic::returnaddress:case Intrinsic::frameaddress: ret[0]=V(0); return true;
    case Intrinsic::fabs: { u64 x=concretize(S,a[0],w); ret[0]=V(x&~(1ull<<(w-1))); return true; }
    default: return false; }
}

static void step(State&S,u64 quantum){
    Frame*f=S.top(); const V*consts=f->fn->consts.data(); const Inst*code=f->fn->code.data();
#define RELOAD() do{ f=S.top(); consts=f->fn->consts.data(); code=f->fn->code.data(); }while(0)
#define G(o) ((o)>=0?f->regs[o]:consts[~(o)])
    u64 cnt=0;
    for(;;){
        if(++cnt>quantum){ S.instr+=cnt; return; }
        const Inst&I=code[f->pc];
        switch(I.op){
        case I_NOP: f->pc++; break;
        case I_BIN: { if(I.n==1){ V a=G(I.a),b=G(I.b); if(!a.e&&!b.e){ 
                u64 m=maskw(I.w),r; switch(I.sub){case E_ADD:r=(a.c+b.c)&m;break;case E_SUB:r=(a.c-b.c)&m;break;case E_AND:r=a.c&b.c;break;case E_OR:r=a.c|b.c;break;case E_XOR:r=a.c^b.c;break;
                  case E_UDIV:case E_SDIV:case E_UREM:case E_SREM: if((b.c&m)==0){ S.instr+=cnt; report(S,"ub","division by zero"); throw Kill(); } // fallthrough
                  default: r=foldBin(I.sub,I.w,a.c,b.c);} f->regs[I.dst]=V(r); }
              else { a=simp(S,a); b=simp(S,b); if(I.sub==E_UDIV||I.sub==E_SDIV||I.sub==E_UREM||I.sub==E_SREM){ if(b.e||b.c==0){ if(branch(S,mkBin(E_EQ,I.w,b,V(0)),[](State&){})){ report(S,"ub","division by zero"); throw Kill(); } } } f=S.top(); f->regs[I.dst]=mkBin(I.sub,I.w,a,b); } }
            else { for(u32 i=0;i<I.n;i++){ V a=G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)),b=G(I.b>=0?I.b+(i32)i:~(~I.b+(i32)i)); f->regs[I.dst+i]=mkBin(I.sub,I.w,a,b);} }
            f->pc++; break; }
        case I_ICMP: { for(u32 i=0;i<I.n;i++){ V a=G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)),b=G(I.b>=0?I.b+(i32)i:~(~I.b+(i32)i)); f->regs[I.dst+i]=icmpV(I.sub,I.w,a,b); } f->pc++; break; }
        case I_MOV: { for(u32 i=0;i<I.n;i++) f->regs[I.dst+i]=G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)); f->pc++; break; }
        case I_ZEXT: { for(u32 i=0;i<I.n;i++) f->regs[I.dst+i]=mkZext(G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)),I.w2,I.w); f->pc++; break; }
        case I_SEXT: { for(u32 i=0;i<I.n;i++) f->regs[I.dst+i]=mkSext(G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)),I.w2,I.w); f->pc++; break; }
        case I_TRUNC: { for(u32 i=0;i<I.n;i++) f->regs[I.dst+i]=mkExtract(G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)),I.w2,0,I.w); f->pc++; break; }
        case I_LOAD: { V a=G(I.a); if(a.e){ a=simp(S,a); if(a.e){ if(I.leaves->size()==1){ V o; if(tabLoad(S,a,(*I.leaves)[0].w,o)){ f->regs[I.dst]=o; f->pc++; break; } } a=V(concretize(S,a,64)); f=S.top(); } }
            if(I.leaves->size()==1){ V v=load(S,a.c,(*I.leaves)[0].w); f->regs[I.dst]=v; } else { int k=0; for(auto&l:*I.leaves){ V v=load(S,a.c+l.off,l.w); f->regs[I.dst+k++]=v; } }
            f->pc++; break; }
        case I_STORE: { V a=G(I.b); if(a.e){ a=V(concretize(S,a,64)); f=S.top(); } int k=0; for(auto&l:*I.leaves){ Opnd o=I.a>=0?I.a+k:~(~I.a+k); store(S,a.c+l.off,G(o),l.w); k++; } f->pc++; break; }
        case I_GEP: { V a=G(I.a); u64 off=I.k; if(!a.e){ bool conc=true; u64 r=a.c+off; if(I.idx){ for(size_t i=0;i<I.idx->size();i++){ V x=G((*I.idx)[i].first); if(x.e){conc=false;break;} r+=(u64)sx(x.c,(*I.idxw)[i])*(*I.idx)[i].second; } } if(conc){ f->regs[I.dst]=V(r); f->pc++; break; } }
            V r=mkBin(E_ADD,64,a,V(off)); if(I.idx) for(size_t i=0;i<I.idx->size();i++){ V x=mkSext(simp(S,G((*I.idx)[i].first)),(*I.idxw)[i],64); r=mkBin(E_ADD,64,r,mkBin(E_MUL,64,x,V((*I.idx)[i].second))); } f->regs[I.dst]=r; f->pc++; break; }
        case I_ALLOCA: { u64 k=concretize(S,G(I.a),64); f=S.top(); u64 p=allocObj(S,I.k*k,O_STACK); if(!f->allocas) f->allocas=new std::vector<u32>; f->allocas->push_back(p>>32); f->regs[I.dst]=V(p); f->pc++; break; }
        case I_BR: takeEdge(f,*I.e1); break;
        case I_CBR: { V c=G(I.a); bool t; if(!c.e) t=c.c&1; else { t=branch(S,c,[&](State&o){ takeEdge(o.top(),*I.e2); }); f=S.top(); } takeEdge(f,t?*I.e1:*I.e2); break; }
        case I_SWITCH: { V c=simp(S,G(I.a)); if(!c.e){ const Edge*e=I.e1; for(auto&p:*I.cases) if(p.first==(c.c&maskw(I.w))){e=p.second;break;} takeEdge(f,*e); break; }
            // group the case values by target edge
            std::map<u32,std::pair<V,Edge*>> g; V any(0); for(auto&p:*I.cases){ V q=mkBin(E_EQ,I.w,c,V(p.first)); if(!q.e&&!(q.c&1)) continue; bool sameT=p.second->mv.empty(); u32 key=sameT?p.second->target:0x80000000u+(u32)(&p-&(*I.cases)[0]); auto it=g.find(key); if(it==g.end()) g[key]={q,p.second}; else it->second.first=mkBin(E_OR,1,it->second.first,q); any=mkBin(E_OR,1,any,q); }
            bool taken=false; for(auto&p:g){ bool t; { Edge*e=p.second.second; V q=p.second.first; q=simp(S,q); if(!q.e) t=q.c&1; else { std::vector<std::pair<u32,u8>> mt,mf; V nq=mkNot(q); int tt=feasible(S,q,mt),ff=feasible(S,nq,mf); if(tt&&ff){ State*o=cloneState(S); updModel(*o,mt); addCons(*o,q.e); takeEdge(o->top(),*e); WL.push_back(o); updModel(S,mf); addCons(S,asE(nq,1)); t=false; } else t=tt; } if(t){ f=S.top(); takeEdge(f,*e); taken=true; break; } } }
            if(!taken){ f=S.top(); takeEdge(f,*I.e1); } f=S.top(); break; }
        case I_RET: { V r[8]; std::vector<V> big; V*t=r; if(I.n>8){big.resize(I.n); t=big.data();} for(u32 i=0;i<I.n;i++) t[i]=G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)); doReturn(S,t,I.n); RELOAD(); break; }
        case I_SELECT: { for(u32 i=0;i<I.n;i++){ V c=simp(S,G(I.sub?(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)):I.a)); V a=G(I.b>=0?I.b+(i32)i:~(~I.b+(i32)i)),b=G(I.c>=0?I.c+(i32)i:~(~I.c+(i32)i)); f->regs[I.dst+i]=c.e?mkIte((*I.leaves)[i].w,c,a,b):(c.c&1?a:b); } f->pc++; break; }
        case I_INSELT: { u32 n=I.n; for(u32 i=0;i<n;i++) { if(i>=I.k&&i<I.k+I.w2) continue; f->regs[I.dst+i]=G(I.a>=0?I.a+(i32)i:~(~I.a+(i32)i)); } for(u32 i=0;i<I.w2;i++) f->regs[I.dst+I.k+i]=G(I.b>=0?I.b+(i32)i:~(~I.b+(i32)i)); f->pc++; break; }
        case I_EXTELT: { for(u32 i=0;i<I.n;i++) f->regs[I.dst+i]=G(I.call->args[i]); f->pc++; break; }
        case I_LPAD: { f->regs[I.dst]=V(f->ehObj); f->regs[I.dst+1]=V(f->ehSel); f->pc++; break; }
        case I_RESUME: { u64 o=G(I.a).c; Frame*x=S.st.back(); bool mk=x->marker; S.st.pop_back(); releaseFrame(S,x); if(mk){ report(S,"uncaught","exception crossed program boundary"); throw Kill(); } unwind(S,o,false); RELOAD(); break; }
        case I_UNREACH: S.instr+=cnt; report(S,"ub","reached unreachable code"); throw Kill();
        case I_ARMW: { u64 a=concretize(S,G(I.a),64); f=S.top(); V old=load(S,a,I.w); V v=G(I.b),nv; switch(I.k){ case AtomicRMWInst::Xchg:nv=v;break;case AtomicRMWInst::Add:nv=mkBin(E_ADD,I.w,old,v);break;case AtomicRMWInst::Sub:nv=mkBin(E_SUB,I.w,old,v);break;case AtomicRMWInst::And:nv=mkBin(E_AND,I.w,old,v);break;case AtomicRMWInst::Or:nv=mkBin(E_OR,I.w,old,v);break; default: unsupported(S,"atomicrmw"); throw Kill(); } store(S,a,nv,I.w); f->regs[I.dst]=old; f->pc++; break; }
        case I_CMPXCHG: { u64 a=concretize(S,G(I.a),64); f=S.top(); u64 old=concretize(S,load(S,a,I.w),I.w); f=S.top(); u64 e=concretize(S,G(I.b),I.w); f=S.top(); if(old==e) store(S,a,G(I.c),I.w); f->regs[I.dst]=V(old); f->regs[I.dst+1]=V(old==e); f->pc++; break; }
        case I_FBIN: { double x=asD(concretize(S,G(I.a),I.w),I.w); f=S.top(); double y=asD(concretize(S,G(I.b),I.w),I.w),r; f=S.top(); switch(I.k){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;default:r=x/y;} f->regs[I.dst]=V(fromD(r,I.w)); f->pc++; break; }
        case I_FNEG: { f->regs[I.dst]=V(concretize(S,G(I.a),I.w)^(1ull<<(I.w-1))); f->pc++; break; }
        case I_FCMP: { double x=asD(concretize(S,G(I.a),I.w),I.w),y=asD(concretize(S,G(I.b),I.w),I.w); f=S.top(); bool u=std::isnan(x)||std::isnan(y),r=false; switch(I.k){ case CmpInst::FCMP_OEQ:r=!u&&x==y;break;case CmpInst::FCMP_OGT:r=!u&&x>y;break;case CmpInst::FCMP_OGE:r=!u&&x>=y;break;case CmpInst::FCMP_OLT:r=!u&&x<y;break;case CmpInst::FCMP_OLE:r=!u&&x<=y;break;case CmpInst::FCMP_ONE:r=!u&&x!=y;break;case CmpInst::FCMP_ORD:r=!u;break;case CmpInst::FCMP_UNO:r=u;break;case CmpInst::FCMP_UEQ:r=u||x==y;break;case CmpInst::FCMP_UGT:r=u||x>y;break;case CmpInst::FCMP_UGE:r=u||x>=y;break;case CmpInst::FCMP_ULT:r=u||x<y;break;case CmpInst::FCMP_ULE:r=u||x<=y;break;case CmpInst::FCMP_UNE:r=u||x!=y;break;case CmpInst::FCMP_TRUE:r=true;break;default:;} f->regs[I.dst]=V(r); f->pc++; break; }
        case I_FCAST: { u64 x=concretize(S,G(I.a),I.w2); f=S.top(); u64 r=0; switch(I.k){case Instruction::SIToFP:r=fromD((double)sx(x,I.w2),I.w);break;case Instruction::UIToFP:r=fromD((double)x,I.w);break;case Instruction::FPToSI:r=(u64)(i64)asD(x,I.w2)&maskw(I.w);break;case Instruction::FPToUI:r=(u64)asD(x,I.w2)&maskw(I.w);break;default:r=fromD(asD(x,I.w2),I.w);} f->regs[I.dst]=V(r); f->pc++; break; }
        case I_CALL: {
            CallX&X=*I.call; 
            if(X.isAsm){ if(auto*CB=dyn_cast<CallBase>(I.ir)) if(auto*IA=dyn_cast<InlineAsm>(CB->getCalledOperand())) if(IA->getAsmString().empty()&&X.nslots==0){ f->pc++; break; } unsupported(S,"inline asm / wide intrinsic"); throw Kill(); }
            u32 n=X.args.size(); V abuf[24]; std::vector<V> big; V*a=abuf; if(n>24){big.resize(n);a=big.data();} for(u32 i=0;i<n;i++) a[i]=G(X.args[i]);
            Fn*callee=X.callee;
            if(!callee){ u64 t=concretize(S,G(X.target),64); f=S.top(); auto it=PG.fnAt.find(t); if(it==PG.fnAt.end()){ S.instr+=cnt; char b[80]; snprintf(b,80,"call through %s pointer 0x%llx",t<4096?"null":"invalid",(unsigned long long)t); report(S,"memory",b); throw Kill(); } callee=it->second; }
            if(X.intrin){ V r[8]; bool ok=intrinsic(S,f,I,a,n,r); if(ok){ f=S.top(); if(I.dst>=0) for(u32 i=0;i<X.nslots&&i<8;i++) f->regs[I.dst+i]=r[i]; if(X.invoke) takeEdge(f,X.normal); else f->pc++; break; } unsupported(S,"intrinsic "+callee->name); throw Kill(); }
            if(callee->native>=0){ V r; S.instr+=cnt; cnt=0; NRes q=nativeTab[callee->native](S,I,a,n,r); if(q==N_DONE){ f=S.top(); if(I.dst>=0&&X.nslots) f->regs[I.dst]=r; if(X.invoke) takeEdge(f,X.normal); else f->pc++; } RELOAD(); if(S.limit&&S.instr>S.limit){ report(S,"limit","instruction budget exceeded (possible non-termination)"); throw Kill(); } break; }
            if(callee->decl){ unsupported(S,"external function "+callee->name); throw Kill(); }
            for(auto&bvp:X.byval){ u64 src=concretize(S,a[bvp.first],64); f=S.top(); u64 p=allocObj(S,bvp.second,O_STACK); copyMem(S,p,src,bvp.second); a[bvp.first]=V(p); }
            u64 va=0; if(callee->F->isVarArg()){ u32 extra=n>X.nfixed?n-X.nfixed:0; va=allocObj(S,8*(u64)extra+8,O_VA); for(u32 i=0;i<extra;i++) store(S,va+8*i,mkZext(a[X.nfixed+i],X.argw[X.nfixed+i],64),64); }
            pushFrame(S,callee,a,callee->F->isVarArg()?X.nfixed:n); S.st.back()->va=va; 
            if(!X.byval.empty()){ Frame*t=S.top(); if(!t->allocas) t->allocas=new std::vector<u32>; for(auto&bvp:X.byval) t->allocas->push_back(a[bvp.first].c>>32); }
            RELOAD();
            break; }
        default: S.instr+=cnt; { std::string s; raw_string_ostream os(s); if(I.ir) I.ir->print(os); unsupported(S,"instruction "+s); } throw Kill();
        }
    }
}

// ---------------------------------------------------------------- exploration
static void flushStats(){ SH->queries+=SV.st.queries; SH->sat+=SV.st.sat; SH->unsat+=SV.st.unsat; SH->unknown+=SV.st.unknown; SH->cacheHits+=SV.st.cacheHits; SH->solveUs+=(u64)(SV.st.time*1e6); SV.st=SolverStats(); }
static int myChildren=0;
static u64 rssMB(){ static int fd=open("/proc/self/statm",O_RDONLY); char b[64]={0}; if(pread(fd,b,63,0)<=0) return 0; u64 a,r; sscanf(b,"%lu %lu",&a,&r); return r*4096/1048576; }
static void maybeSplit(){
    if(WL.size()<1) return; int act=SH->active; if(act>=O.jobs) return;
    if(!SH->active.compare_exchange_strong(act,act+1)) return;
    fflush(OUT); fflush(stderr); pid_t p=fork(); if(p<0){ SH->active--; return; }
    size_t half=(WL.size()+1)/2;
    if(p==0){ isRoot=false; for(size_t i=half;i<WL.size();i++) delete WL[i]; WL.resize(half); fclose(OUT); int k=SH->nproc++; std::string fn=O.out+"/r"+std::to_string(k)+".jsonl"; OUT=fopen(fn.c_str(),"w"); SV.st=SolverStats(); myChildren=0; localPaths=0; return; }
    // parent keeps the newer half plus its current state
    myChildren++; for(size_t i=0;i<half;i++) delete WL[i]; WL.erase(WL.begin(),WL.begin()+half);
}
static bool childFresh=false;
static void explore(){
    u64 lastChk=0;
    while(!WL.empty()&&!SH->stop){
        State*S=WL.back(); WL.pop_back(); bool dead=false; (void)childFresh;
        while(!dead&&!SH->stop){
            u64 i0=S->instr;
            try{ if(S->st.empty()) startNext(*S); step(*S,200000); } catch(Kill&){ dead=true; }
            SH->instrs+=S->instr-i0;
            if(!dead){ if(S->limit&&S->instr>S->limit){ report(*S,"limit","instruction budget exceeded (possible non-termination)"); dead=true; }
                else if(S->instr>O.maxInstr){ SH->killedLimit++; report(*S,"limit","path instruction limit exceeded"); dead=true; } }
            if(nowS()-T0>O.budget){ SH->incomplete|=1; SH->stop=1; }
            if(!WL.empty()&&SH->active<O.jobs){ bool wasRoot=isRoot; pid_t me=getpid(); maybeSplit(); if(getpid()!=me){ delete S; S=nullptr; (void)wasRoot; goto next; } }
        }
        delete S;
        next:
        if((++lastChk&15)==0&&rssMB()>O.memMB){ SH->incomplete|=32; fprintf(stderr,"symx: memory limit, dropping %zu states\n",WL.size()); break; }
    }
    if(!WL.empty()&&!SH->stop) {} 
    for(auto s:WL) delete s; WL.clear();
    flushStats(); fflush(OUT); SH->active--;
    while(myChildren>0){ int st; pid_t p=wait(&st); if(p<0) break; myChildren--; if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ SH->crashed=1; if(WIFSIGNALED(st)) SH->active--; } }
}
int main(int argc,char**argv){
    std::vector<std::string> prog,lib;
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
        if(a=="-j") O.jobs=stoi(nx()); else if(a=="-t") O.budget=stod(nx()); else if(a=="-o") O.out=nx(); else if(a=="-p") prog.push_back(nx()); else if(a=="-e") O.entry=nx(); else if(a=="-i") O.maxInstr=stoull(nx()); else if(a=="-s") O.samples=stoi(nx()); else if(a=="-S") O.sampleStride=stoi(nx()); else if(a=="-d") DBG=true; else if(a=="-b") O.maxBugs=stoi(nx()); else if(a=="-m") O.memMB=stoull(nx()); else if(a=="-D") O.maxDepth=stoi(nx()); else if(a=="-R") O.seed=stoull(nx()); else if(a=="-P") O.maxPaths=stoull(nx()); else lib.push_back(a); }
    T0=nowS(); FREED=newObj(0,O_FREED); FREED->rc=1000;
    auto ld=[&](const std::string&f)->std::unique_ptr<Module>{ SMDiagnostic E; auto m=parseIRFile(f,E,PG.ctx); if(!m){ E.print("symx",errs()); exit(3);} return m; };
    std::vector<std::string> progCtorNames;
    auto ctorsOf=[&](Module&M){ std::vector<std::pair<u64,std::string>> r; if(auto*g=M.getGlobalVariable("llvm.global_ctors")) if(g->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) r.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F->getName().str()}); } std::stable_sort(r.begin(),r.end(),[](auto&a,auto&b){return a.first<b.first;}); return r; };
    std::unique_ptr<Module> base; std::unique_ptr<Linker> L;
    int ci=0;
    auto tagCtors=[&](Module&m,const char*tag){ // give constructors unique external names, in order
        std::vector<std::string> out; for(auto&p:ctorsOf(m)){ Function*F=m.getFunction(p.second); std::string nn=std::string("symx.ctor.")+tag+"."+std::to_string(ci++); F->setName(nn); F->setLinkage(GlobalValue::ExternalLinkage); out.push_back(F->getName().str()); } if(auto*g=m.getGlobalVariable("llvm.global_ctors")) g->eraseFromParent(); if(auto*g=m.getGlobalVariable("llvm.global_dtors")) g->eraseFromParent(); return out; };
    std::vector<std::string> libC,prC;
    auto linkIn=[&](std::unique_ptr<Module> m){ if(!base){ base=std::move(m); L=std::make_unique<Linker>(*base); } else if(L->linkInModule(std::move(m))){ fprintf(stderr,"link failed\n"); exit(3);} };
    for(auto&f:lib){ auto m=ld(f); for(auto&c:tagCtors(*m,"lib")) libC.push_back(c); linkIn(std::move(m)); }
    for(auto&f:prog){ auto m=ld(f); if(auto*F=m->getFunction("main")) F->setName("prog_main");
        for(auto&g:m->globals()) if(!g.isDeclaration()&&!g.isConstant()&&!g.getName().starts_with("llvm.")){ auto*ex=base?base->getNamedValue(g.getName()):nullptr; if(g.hasLocalLinkage()||!ex||ex->isDeclaration()) g.addAttribute("symprog"); }
        for(auto&F:*m) if(!F.isDeclaration()) { auto*ex=base?base->getNamedValue(F.getName()):nullptr; if(F.hasLocalLinkage()||!ex||ex->isDeclaration()) F.addFnAttr("symprog"); }
        for(auto&c:tagCtors(*m,"prog")) prC.push_back(c); linkIn(std::move(m)); }
    PG.M=std::move(base); Module&M=*PG.M; PG.DL=&M.getDataLayout();
    initNatives(); Mem&im=initMem;
    // functions
    for(auto&F:M){ Fn*f=new Fn; f->F=&F; f->name=F.getName().str(); f->id=PG.fnList.size(); f->prog=F.hasFnAttribute("symprog"); f->decl=F.isDeclaration(); PG.fnList.push_back(f); PG.fns[&F]=f; PG.byName[f->name]=f; auto it=NT.find(f->name); if(it!=NT.end()){ f->native=nativeTab.size(); nativeTab.push_back(it->second); }
        if(F.isDeclaration()&&F.hasExternalWeakLinkage()&&f->native<0){ PG.gaddr[&F]=0; continue; }
        Obj*o=newObj(1,O_FUNC); o->ro=true; u32 id=im.add(o); f->addr=(u64)id<<32; PG.gaddr[&F]=f->addr; PG.fnAt[f->addr]=f; PG.gname[f->addr]=f->name; }
    for(auto&g:M.globals()){ if(g.getName().starts_with("llvm.")){ PG.gaddr[&g]=0; continue; } if(g.isDeclaration()&&g.hasExternalWeakLinkage()){ PG.gaddr[&g]=0; continue; }
        Type*t=g.getValueType(); u64 sz=t->isSized()?(u64)PG.DL->getTypeAllocSize(t):64; if(g.isDeclaration()){ if(sz<64) sz=64; if(DBG&&!g.use_empty()) fprintf(stderr,"undefined global %s\n",g.getName().str().c_str()); } Obj*o=newObj(sz,O_GLOBAL); memset(o->data,0,sz); u32 id=im.add(o); PG.gaddr[&g]=(u64)id<<32; PG.gname[(u64)id<<32]=g.getName().str(); if(g.hasAttribute("symprog")){ progGlobals.push_back(id); o->prog=true; } }
    for(auto&a:M.aliases()){ u64 v; if(PG.constScalar(a.getAliasee(),v)) PG.gaddr[&a]=v; }
    for(auto&g:M.globals()) if(g.hasInitializer()&&!g.getName().starts_with("llvm.")){ Obj*o=im.get(PG.gaddr[&g]>>32); PG.initBytes(g.getInitializer(),o->data); o->ro=g.isConstant(); }
    auto gv=[&](const char*n)->u64{ auto*g=M.getNamedGlobal(n); return g?PG.gaddr[g]+16:0; }; TI_CLASS=gv("_ZTVN10__cxxabiv117__class_type_infoE"); TI_SI=gv("_ZTVN10__cxxabiv120__si_class_type_infoE"); TI_VMI=gv("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    if(PG.byName.count("_ZSt9terminatev")&&!PG.byName["_ZSt9terminatev"]->decl) FN_TERM=PG.byName["_ZSt9terminatev"];
    for(auto&c:libC) startup.push_back(PG.byName.at(c)); for(auto&c:prC) progCtors.push_back(PG.byName.at(c)); // run by the harness before each run of the program
    if(!PG.byName.count(O.entry)){ fprintf(stderr,"no entry %s\n",O.entry.c_str()); return 3; } startup.push_back(PG.byName[O.entry]);
    if(DBG){ for(auto f:PG.fnList) if(f->decl&&f->native<0&&!f->F->isIntrinsic()&&!f->F->use_empty()) fprintf(stderr,"undefined function %s\n",demangle(f->name).c_str()); }
    SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SH->active=1; SH->nproc=1; SH->lk.clear();
    SV.init(); OUT=fopen((O.out+"/r0.jsonl").c_str(),"w"); if(!OUT){ perror(O.out.c_str()); return 3; }
    double tl=nowS();
    State*S=new State(); { S->mem.pg=im.pg; for(auto p:S->mem.pg) if(p) p->rc++; S->mem.nextId=im.nextId; }
    WL.push_back(S); pid_t root=getpid(); explore();
    if(DBG) fprintf(stderr,"unary queries %lu time %.2f; all %lu time %.2f\n",SV.uN,SV.uT,SV.st.queries,SV.st.time);
    if(getpid()!=root) _exit(0);
    double wall=nowS()-T0; int nf=0; std::string fns; for(auto f:PG.fnList) if(f->prog&&SH->fnHit[f->id&65535]){ nf++; std::string d=demangle(f->name); if(d.find("std::")==std::string::npos&&d.find("__gnu_cxx")==std::string::npos&&d.size()<80){ if(!fns.empty()) fns+=","; fns+="\""+jesc(d)+"\""; } }
    FILE*f=fopen((O.out+"/summary.json").c_str(),"w");
    fprintf(f,"{\"wall\":%.3f,\"load\":%.3f,\"paths\":%lu,\"forks\":%lu,\"pruned\":%lu,\"instrs\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"domain_decisions\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"assert_constant\":%lu,\"bug_paths\":%lu,\"incomplete\":%d,\"crashed\":%d,\"procs\":%d,\"max_instr\":%lu,\"nfuncs\":%d,\"unsupported\":\"%s\",\"cover\":{",wall,tl-T0,(u64)SH->paths,(u64)SH->forks,(u64)SH->pruned,(u64)SH->instrs,(u64)SH->queries,(u64)SH->sat,(u64)SH->unsat,(u64)SH->unknown,(u64)SH->cacheHits,SH->solveUs/1e6,(u64)SH->domDec,(u64)SH->asserts,(u64)SH->assertQ,(u64)SH->assertTriv,(u64)SH->bugPaths,(int)SH->incomplete,(int)SH->crashed,(int)SH->nproc,(u64)SH->maxInstr,nf,jesc(SH->unsup).c_str());
    for(int i=0;i<SH->ncover;i++) fprintf(f,"%s\"%s\":%u",i?",":"",jesc(SH->coverName[i]).c_str(),(u32)SH->cover[i]); fprintf(f,"},\"functions\":[%s]}\n",fns.c_str()); fclose(f);
    _exit(0);
}
