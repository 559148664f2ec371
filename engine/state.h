// Memory, path state and solver.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <memory>
#include <set>

static inline double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum OKind : u8 { O_GLOBAL, O_FUNC, O_STACK, O_HEAP, O_NEW, O_NEWARR, O_EXC, O_VA, O_FREED };
struct Obj { u32 rc; u32 size; u8 kind; bool ro; bool prog; u8* data; E* sym; };
static inline Obj* newObj(u32 size,u8 kind){ Obj*o=(Obj*)malloc(sizeof(Obj)); o->rc=1;o->size=size;o->kind=kind;o->ro=false;o->prog=false;o->data=(u8*)malloc(size?size:1);o->sym=nullptr; return o; }
static inline void decObj(Obj*o){ if(o&&--o->rc==0){ free(o->data); free(o->sym); free(o);} }
struct Page { u32 rc; u32 live; Obj* o[256]; };
static inline void decPage(Page*p){ if(p&&--p->rc==0){ for(auto x:p->o) decObj(x); free(p);} }
extern Obj* FREED;

struct Mem {
    std::vector<Page*> pg; u32 nextId=16;
    Mem(){} 
    Mem(const Mem&m):pg(m.pg),nextId(m.nextId){ for(auto p:pg) if(p) p->rc++; }
    Mem& operator=(const Mem&)=delete;
    ~Mem(){ for(auto p:pg) decPage(p); }
    Obj* get(u32 id)const{ u32 i=id>>8; if(i>=pg.size()||!pg[i]) return nullptr; return pg[i]->o[id&255]; }
    Page* wpage(u32 i){ if(i>=pg.size()) pg.resize(i+1,nullptr); Page*&p=pg[i]; if(!p){ p=(Page*)calloc(1,sizeof(Page)); p->rc=1; } else if(p->rc>1){ Page*q=(Page*)malloc(sizeof(Page)); memcpy(q,p,sizeof(Page)); q->rc=1; for(auto x:q->o) if(x) x->rc++; p->rc--; p=q; } return p; }
    Obj* getw(u32 id){ Page*p=wpage(id>>8); Obj*&o=p->o[id&255]; if(o&&o->rc>1){ Obj*n=newObj(o->size,o->kind); n->ro=o->ro; n->prog=o->prog; memcpy(n->data,o->data,o->size); if(o->sym){ n->sym=(E*)malloc(sizeof(E)*std::max(1u,o->size)); memcpy(n->sym,o->sym,sizeof(E)*o->size);} o->rc--; o=n; } return o; }
    u32 add(Obj*o){ u32 id=nextId++; Page*p=wpage(id>>8); p->o[id&255]=o; return id; }
    void set(u32 id,Obj*o){ Page*p=wpage(id>>8); decObj(p->o[id&255]); p->o[id&255]=o; }
    void drop(u32 id){ Page*p=wpage(id>>8); decObj(p->o[id&255]); p->o[id&255]=FREED; FREED->rc++;
        // whole page of freed objects: release the page storage
        if(id+256<nextId||((id&255)==255)){ if(++p->live>=256){ } } }
};

struct Dom { u64 w[4]; bool has(unsigned v)const{return w[v>>6]>>(v&63)&1;} void set(unsigned v){w[v>>6]|=1ull<<(v&63);} int count()const{return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]);}
    bool empty()const{return !(w[0]|w[1]|w[2]|w[3]);} int first()const{ for(int i=0;i<4;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1;} bool operator==(const Dom&o)const{return !memcmp(w,o.w,32);} bool operator<(const Dom&o)const{return memcmp(w,o.w,32)<0;} };
static inline Dom fullDom(){ Dom d; memset(d.w,0xff,32); return d; }

struct SymSt { Dom d; u8 model; bool multi; };
struct Draw { const char* name; u32 first,n; };
struct Obs { const char* label; std::shared_ptr<std::vector<V>> v; };

struct Fn; struct Inst;
struct Frame { u32 rc; Fn* fn; u32 pc; u32 n; bool marker; u8 onret; u64 ehObj; u32 ehSel; u64 va; V* regs; std::vector<u32>* allocas; };
static inline Frame* newFrame(Fn*f,u32 n){ Frame*x=(Frame*)calloc(1,sizeof(Frame)); x->rc=1;x->fn=f;x->n=n;x->regs=(V*)calloc(n?n:1,sizeof(V)); return x; }
static inline void decFrame(Frame*f){ if(--f->rc==0){ free(f->regs); delete f->allocas; free(f);} }
static inline Frame* cloneFrame(Frame*f){ Frame*x=(Frame*)malloc(sizeof(Frame)); *x=*f; x->rc=1; x->regs=(V*)malloc(sizeof(V)*(f->n?f->n:1)); memcpy((void*)x->regs,f->regs,sizeof(V)*f->n); x->allocas=f->allocas?new std::vector<u32>(*f->allocas):nullptr; return x; }
struct ExcInfo { u64 obj; u64 type; u64 dtor; int handlers; };

struct State {
    std::vector<Frame*> st; Mem mem; std::vector<SymSt> sy; std::vector<E> cons; std::vector<Draw> draws; std::vector<Obs> obs;
    std::vector<ExcInfo> exc; std::vector<u64> caught; int uncaught=0; u32 phase=0; u64 instr=0, limit=0; u32 heapLive=0; u32 forks=0; int choiceDepth=0;
    std::vector<std::pair<const char*,u32>> covers;
    State(){}
    State(const State&o):st(o.st),mem(o.mem),sy(o.sy),cons(o.cons),draws(o.draws),obs(o.obs),exc(o.exc),caught(o.caught),uncaught(o.uncaught),phase(o.phase),instr(o.instr),limit(o.limit),heapLive(o.heapLive),forks(o.forks),choiceDepth(o.choiceDepth),covers(o.covers){ for(auto f:st) f->rc++; }
    ~State(){ for(auto f:st) decFrame(f); }
    Frame* top(){ Frame*&f=st.back(); if(f->rc>1){ Frame*n=cloneFrame(f); f->rc--; f=n; } return f; }
};

// ---------------------------------------------------------------- solver
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cacheHits=0; double time=0; };
struct Solver {
    Z3_context c=nullptr; Z3_solver s=nullptr; SolverStats st; std::unordered_map<u32,Z3_ast> vars; std::map<std::pair<u32,Dom>,Z3_ast> domc; std::map<Dom,u32> domId;
    std::unordered_map<u64,int> cache; u32 timeoutMs=30000; u64 stampCtr=1; u32 sinceReset=0;
    std::unordered_map<u32,std::pair<Z3_ast,bool>> trc; std::unordered_map<u32,Z3_ast> trcB;
    void init(){ Z3_config cfg=Z3_mk_config(); c=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,[](Z3_context x,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(x,e)); abort(); }); mk(); }
    void mk(){ if(s) Z3_solver_dec_ref(c,s); s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s); Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),timeoutMs); Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p); sinceReset=0; }
    Z3_ast keep(Z3_ast a){ Z3_inc_ref(c,a); return a; }
    Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(c,w); }
    Z3_ast num(u64 v,unsigned w){ return Z3_mk_unsigned_int64(c,v&maskw(w),bv(w)); }
    Z3_ast var(u32 sym){ auto i=vars.find(sym); if(i!=vars.end()) return i->second; char n[24]; snprintf(n,sizeof n,"s%u",sym); Z3_ast a=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,n),bv(8))); vars[sym]=a; return a; }
    Z3_ast setC(u32 sym,const Dom&d){ // membership
        std::vector<Z3_ast> o; Z3_ast x=var(sym);
        for(int i=0;i<256;){ if(!d.has(i)){i++;continue;} int j=i; while(j+1<256&&d.has(j+1)) j++; 
            if(i==j) o.push_back(Z3_mk_eq(c,x,num(i,8))); else { Z3_ast q[2]; int n=0; if(i>0) q[n++]=Z3_mk_bvuge(c,x,num(i,8)); if(j<255) q[n++]=Z3_mk_bvule(c,x,num(j,8)); if(n==0) return Z3_mk_true(c); o.push_back(n==1?q[0]:Z3_mk_and(c,2,q)); } i=j+1; }
        if(o.empty()) return Z3_mk_false(c); return o.size()==1?o[0]:Z3_mk_or(c,o.size(),o.data()); }
    Z3_ast domA(u32 sym,const Dom&d){ auto k=std::make_pair(sym,d); auto i=domc.find(k); if(i!=domc.end()) return i->second; return domc[k]=keep(setC(sym,d)); }
    u32 idOf(const Dom&d){ auto i=domId.find(d); if(i!=domId.end()) return i->second; u32 n=domId.size()+1; domId[d]=n; return n; }
    Z3_ast trB(E e){ // w==1
        auto i=trcB.find(e->id); if(i!=trcB.end()) return i->second; Z3_ast r;
        switch(e->op){
        case E_CONST: r=e->cval&1?Z3_mk_true(c):Z3_mk_false(c); break;
        case E_TAB: { Dom d; memset(&d,0,sizeof d); for(int v=0;v<256;v++) if(e->tab[v]&1) d.set(v); r=setC(e->sym,d); break; }
        case E_AND: { Z3_ast q[2]={trB(e->a),trB(e->b)}; r=Z3_mk_and(c,2,q); break; }
        case E_OR: { Z3_ast q[2]={trB(e->a),trB(e->b)}; r=Z3_mk_or(c,2,q); break; }
        case E_XOR: r=Z3_mk_xor(c,trB(e->a),trB(e->b)); break;
        case E_EQ: r=e->a->w==1?Z3_mk_iff(c,trB(e->a),trB(e->b)):Z3_mk_eq(c,tr(e->a),tr(e->b)); break;
        case E_ULT: r=Z3_mk_bvult(c,tr(e->a),tr(e->b)); break; case E_ULE: r=Z3_mk_bvule(c,tr(e->a),tr(e->b)); break;
        case E_SLT: r=Z3_mk_bvslt(c,tr(e->a),tr(e->b)); break; case E_SLE: r=Z3_mk_bvsle(c,tr(e->a),tr(e->b)); break;
        case E_ITE: r=Z3_mk_ite(c,trB(e->a),trB(e->b),trB(e->c)); break;
        default: r=Z3_mk_eq(c,tr0(e),num(1,1)); }
        return trcB[e->id]=keep(r);
    }
    Z3_ast tr(E e){
        auto i=trc.find(e->id); if(i!=trc.end()) return i->second.first;
        Z3_ast r; if(e->w==1&&e->op!=E_EXTRACT) r=Z3_mk_ite(c,trB(e),num(1,1),num(0,1)); else r=tr0(e);
        trc[e->id]={keep(r),true}; return r; }
    Z3_ast tr0(E e){
        switch(e->op){
        case E_CONST: return num(e->cval,e->w);
        case E_TAB: { bool id=true; for(int v=0;v<256&&id;v++) if(e->tab[v]!=(u64)v) id=false;
            if(id){ if(e->w==8) return var(e->sym); if(e->w>8) return Z3_mk_zero_ext(c,e->w-8,var(e->sym)); }
            if(e->w>1){ u64 m=maskw(e->w),k0=e->tab[0]; bool add=true; for(int v=1;v<256&&add;v++) if(e->tab[v]!=((k0+v)&m)) add=false; // byte plus a constant
                if(add) return Z3_mk_bvadd(c,e->w==8?var(e->sym):e->w>8?Z3_mk_zero_ext(c,e->w-8,var(e->sym)):Z3_mk_extract(c,e->w-1,0,var(e->sym)),num(k0,e->w));
                bool sub=true; for(int v=1;v<256&&sub;v++) if(e->tab[v]!=((k0-v)&m)) sub=false; // constant minus a byte
                if(sub) return Z3_mk_bvsub(c,num(k0,e->w),e->w==8?var(e->sym):e->w>8?Z3_mk_zero_ext(c,e->w-8,var(e->sym)):Z3_mk_extract(c,e->w-1,0,var(e->sym)));
                u64 bitm[8]; for(int k=0;k<8;k++) bitm[k]=e->tab[1<<k]^k0; bool lin=true; for(int v=0;v<256&&lin;v++){ u64 x=k0; for(int k=0;k<8;k++) if(v>>k&1) x^=bitm[k]; if(x!=e->tab[v]) lin=false; }
                for(int b=0;b<(int)e->w&&lin;b++){ int n=0; for(int k=0;k<8;k++) n+=bitm[k]>>b&1; if(n>1) lin=false; }
                if(lin){ Z3_ast r=nullptr; int b=(int)e->w-1; auto src=[&](int b){ for(int k=0;k<8;k++) if(bitm[k]>>b&1) return k; return -1; }; // a selection of bits
                    while(b>=0){ int k=src(b),lo=b; Z3_ast t; if(k<0){ while(lo>0&&src(lo-1)<0) lo--; t=num(0,b-lo+1); } else { while(lo>0&&src(lo-1)>=0&&src(lo-1)==k-(b-lo+1)) lo--; t=Z3_mk_extract(c,k,k-(b-lo),var(e->sym)); }
                        r=r?Z3_mk_concat(c,r,t):t; b=lo-1; }
                    return k0?Z3_mk_bvxor(c,r,num(k0,e->w)):r; } }
            std::map<u64,Dom> g; for(int v=0;v<256;v++){ auto it=g.find(e->tab[v]); if(it==g.end()){ Dom d; memset(&d,0,sizeof d); it=g.emplace(e->tab[v],d).first; } it->second.set(v); }
            u64 best=0;int bc=-1; for(auto&p:g) if(p.second.count()>bc){bc=p.second.count();best=p.first;}
            Z3_ast r=num(best,e->w); for(auto&p:g) if(p.first!=best) r=Z3_mk_ite(c,setC(e->sym,p.second),num(p.first,e->w),r); return r; }
        case E_ADD: return Z3_mk_bvadd(c,tr(e->a),tr(e->b)); case E_SUB: return Z3_mk_bvsub(c,tr(e->a),tr(e->b)); case E_MUL: return Z3_mk_bvmul(c,tr(e->a),tr(e->b));
        case E_UDIV: return Z3_mk_bvudiv(c,tr(e->a),tr(e->b)); case E_SDIV: return Z3_mk_bvsdiv(c,tr(e->a),tr(e->b)); case E_UREM: return Z3_mk_bvurem(c,tr(e->a),tr(e->b)); case E_SREM: return Z3_mk_bvsrem(c,tr(e->a),tr(e->b));
        case E_AND: return Z3_mk_bvand(c,tr(e->a),tr(e->b)); case E_OR: return Z3_mk_bvor(c,tr(e->a),tr(e->b)); case E_XOR: return Z3_mk_bvxor(c,tr(e->a),tr(e->b));
        case E_SHL: return Z3_mk_bvshl(c,tr(e->a),tr(e->b)); case E_LSHR: return Z3_mk_bvlshr(c,tr(e->a),tr(e->b)); case E_ASHR: return Z3_mk_bvashr(c,tr(e->a),tr(e->b));
        case E_ITE: return Z3_mk_ite(c,trB(e->a),tr(e->b),tr(e->c));
        case E_CONCAT: return Z3_mk_concat(c,tr(e->a),tr(e->b));
        case E_EXTRACT: return Z3_mk_extract(c,e->k+e->w-1,e->k,tr(e->a));
        case E_ZEXT: return Z3_mk_zero_ext(c,e->w-e->a->w,tr(e->a)); case E_SEXT: return Z3_mk_sign_ext(c,e->w-e->a->w,tr(e->a));
        default: return Z3_mk_ite(c,trB(e),num(1,1),num(0,1)); }
    }
    // concrete evaluation under a model
    template<class G> u64 evalT(E e,const G&g,u64 stamp){
        if(e->op==E_CONST) return e->cval; if(e->op==E_TAB) return e->tab[g(e->sym)];
        if(e->stamp==stamp) return e->memo; u64 r,m=maskw(e->w);
        switch(e->op){ case E_ITE: r=evalT(e->a,g,stamp)&1?evalT(e->b,g,stamp):evalT(e->c,g,stamp); break;
        case E_CONCAT: r=(evalT(e->a,g,stamp)<<e->b->w)|evalT(e->b,g,stamp); break; case E_EXTRACT: r=evalT(e->a,g,stamp)>>e->k; break;
        case E_ZEXT: r=evalT(e->a,g,stamp); break; case E_SEXT: r=(u64)sx(evalT(e->a,g,stamp),e->a->w); break;
        case E_AND: if(e->w==1){ r=evalT(e->a,g,stamp)&&evalT(e->b,g,stamp); break; } // fallthrough
        default: r=foldBin(e->op,e->a->w,evalT(e->a,g,stamp),evalT(e->b,g,stamp)); }
        r&=m; e->stamp=stamp; e->memo=r; return r; }
    u64 eval(E e,const State&S){ return evalT(e,[&](u32 s){return (unsigned)S.sy[s].model;},++stampCtr); }
    u64 evalV(const V&v,const State&S){ return v.e?eval(v.e,S):v.c; }

    // one-byte decision: is there a value in d for which the condition with truth set t holds? (identical queries are answered once)
    std::map<std::pair<Dom,Dom>,int> ucache; Z3_solver us=nullptr; Z3_ast ux=nullptr; std::map<Dom,Z3_ast> uset; u32 uCount=0; double uT=0; u64 uN=0;
    int unary(const Dom&d,const Dom&t){ auto k=std::make_pair(d,t); auto it=ucache.find(k); if(it!=ucache.end()){ st.cacheHits++; return it->second; }
        double t0=nowS(); if(!us||++uCount>5000){ if(us) Z3_solver_dec_ref(c,us); us=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,us); uCount=0; if(!ux) ux=keep(Z3_mk_const(c,Z3_mk_string_symbol(c,"u"),bv(8))); vars[0xffffffffu]=ux; }
        auto se=[&](const Dom&x){ auto i=uset.find(x); if(i!=uset.end()) return i->second; return uset[x]=keep(setC(0xffffffffu,x)); };
        Z3_solver_push(c,us); Z3_solver_assert(c,us,se(d)); Z3_solver_assert(c,us,se(t)); Z3_lbool r=Z3_solver_check(c,us); Z3_solver_pop(c,us,1); st.queries++; if(r==Z3_L_TRUE) st.sat++; else if(r==Z3_L_FALSE) st.unsat++; else st.unknown++; st.time+=nowS()-t0; uT+=nowS()-t0; uN++;
        return ucache[k]=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1; }

    // is pathcond && extra satisfiable? (model: new values for the involved symbols)
    int check(const State&S,E extra,std::vector<std::pair<u32,u8>>*model,bool noCache=false){
        std::vector<u32> syms; std::vector<bool> in(S.sy.size(),false);
        auto addE=[&](E e){ if(e->single){ if(!in[e->sym]){in[e->sym]=true;syms.push_back(e->sym);} } else if(e->deps) for(u32 x:*e->deps) if(!in[x]){in[x]=true;syms.push_back(x);} };
        if(extra) addE(extra); else for(u32 i=0;i<S.sy.size();i++){ in[i]=true; syms.push_back(i);} 
        std::vector<E> use; std::vector<bool> done(S.cons.size(),false); bool ch=true;
        while(ch){ ch=false; for(size_t i=0;i<S.cons.size();i++) if(!done[i]){ E e=S.cons[i]; bool hit=false; if(e->deps) for(u32 x:*e->deps) if(in[x]){hit=true;break;} if(hit){ done[i]=true; use.push_back(e); addE(e); ch=true; } } }
        std::sort(syms.begin(),syms.end()); std::sort(use.begin(),use.end(),[](E a,E b){return a->id<b->id;});
        u64 key=extra?extra->id*0x9E3779B97F4A7C15ull:1; for(E e:use) key=mixh(key,e->id); for(u32 x:syms) key=mixh(mixh(key,x),idOf(S.sy[x].d));
        if(!model&&!noCache){ auto it=cache.find(key); if(it!=cache.end()){ st.cacheHits++; return it->second; } }
        double t0=nowS(); if(++sinceReset>2000) mk();
        Z3_solver_push(c,s);
        static const Dom fd=fullDom();
        for(u32 x:syms) if(!(S.sy[x].d==fd)) Z3_solver_assert(c,s,domA(x,S.sy[x].d));
        for(E e:use) Z3_solver_assert(c,s,trB(e));
        if(extra) Z3_solver_assert(c,s,trB(extra));
        Z3_lbool r=Z3_solver_check(c,s); st.queries++;
        if(r==Z3_L_TRUE){ st.sat++; if(model){ Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m); for(u32 x:syms){ Z3_ast v; u64 u=0; if(Z3_model_eval(c,m,var(x),true,&v)&&Z3_get_numeral_uint64(c,v,(uint64_t*)&u)) model->push_back({x,(u8)u}); } Z3_model_dec_ref(c,m); } }
        else if(r==Z3_L_FALSE) st.unsat++; else st.unknown++;
        if(getenv("SYMX_SLOW")&&nowS()-t0>0.005) fprintf(stderr,"SLOW %.3f syms %zu use %zu extra %d\n%s\n",nowS()-t0,syms.size(),use.size(),extra?1:0,Z3_solver_to_string(c,s));
        Z3_solver_pop(c,s,1); st.time+=nowS()-t0;
        int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1; cache[key]=res; return res;
    }
};
