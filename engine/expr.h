// Expressions: hash-consed bit-vector terms over symbolic bytes.
// A term that depends on exactly one symbolic byte is kept as its 256-entry value table (kind TAB).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

enum EOp : u8 { E_TAB, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_CONST, E_UNDEF };

struct Expr;
typedef const Expr* E;
struct Expr {
    u8 op, w; bool iteConst; bool single;   // single: depends on one symbol
    u32 id; u32 sym; u32 k;                 // sym: for single; k: extract offset
    u64 cval;
    u64 hash;
    E a, b, c;
    const u64* tab;                         // TAB: 256 values
    const std::vector<u32>* deps;           // multi
    mutable void* z3;
    mutable u64 stamp; mutable u64 memo;
};
struct V { u64 c; E e; V():c(0),e(nullptr){} V(u64 x):c(x),e(nullptr){} V(u64 x,E y):c(x),e(y){} bool conc() const { return !e; } };

static inline u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v, unsigned w){ return w>=64? (i64)v : (i64)(v<<(64-w))>>(64-w); }
static inline u64 mixh(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }

struct ExprPool {
    std::unordered_multimap<u64,E> tbl; u32 next=1; u64 bytes=0;
    std::unordered_map<u64,std::vector<const std::vector<u32>*>> deptbl;
    static u64 hashDeps(const std::vector<u32>&d){ u64 h=d.size(); for(u32 x:d) h=mixh(h,x); return h; }
    const std::vector<u32>* internDeps(std::vector<u32>&&d){
        auto &l=deptbl[hashDeps(d)]; for(auto p:l) if(*p==d) return p;
        auto p=new std::vector<u32>(std::move(d)); l.push_back(p); return p;
    }
    E konst(u64 v,unsigned w){ v&=maskw(w); u64 h=mixh(mixh(E_CONST,w),v);
        auto r=tbl.equal_range(h); for(auto i=r.first;i!=r.second;++i){E x=i->second; if(x->op==E_CONST&&x->w==w&&x->cval==v) return x;}
        Expr*x=new Expr(); memset(x,0,sizeof*x); x->op=E_CONST;x->w=w;x->cval=v;x->id=next++;x->hash=h; tbl.emplace(h,x); return x; }
    V tab(u32 sym,unsigned w,const u64*v){
        bool same=true; for(int i=1;i<256;i++) if(v[i]!=v[0]){same=false;break;}
        if(same) return V(v[0]);
        u64 h=mixh(mixh(sym,w),77); for(int i=0;i<256;i++) h=(h^v[i])*0x9E3779B97F4A7C15ull, h^=h>>29;
        auto r=tbl.equal_range(h); for(auto i=r.first;i!=r.second;++i){E x=i->second; if(x->op==E_TAB&&x->sym==sym&&x->w==w&&!memcmp(x->tab,v,2048)) return V(0,x);}
        Expr*x=new Expr(); memset(x,0,sizeof*x); x->op=E_TAB;x->w=w;x->sym=sym;x->single=true;x->id=next++;x->hash=h;
        u64*t=new u64[256]; memcpy(t,v,2048); x->tab=t; bytes+=2048+sizeof(Expr)+64; tbl.emplace(h,x); return V(0,x);
    }
    void addDeps(std::vector<u32>&d,E x){ if(!x||x->op==E_CONST) return; if(x->single) d.push_back(x->sym); else if(x->deps) d.insert(d.end(),x->deps->begin(),x->deps->end()); }
    E node(u8 op,unsigned w,E a,E b=nullptr,E c=nullptr,u32 k=0){
        u64 h=mixh(mixh(mixh(op,w),k),(a?a->id:0)); h=mixh(mixh(h,b?b->id:0),c?c->id:0);
        auto r=tbl.equal_range(h); for(auto i=r.first;i!=r.second;++i){E x=i->second; if(x->op==op&&x->w==w&&x->a==a&&x->b==b&&x->c==c&&x->k==k) return x;}
        Expr*x=new Expr(); memset(x,0,sizeof*x); x->op=op;x->w=w;x->a=a;x->b=b;x->c=c;x->k=k;x->id=next++;x->hash=h;
        std::vector<u32> d; addDeps(d,a);addDeps(d,b);addDeps(d,c); std::sort(d.begin(),d.end()); d.erase(std::unique(d.begin(),d.end()),d.end());
        x->deps=internDeps(std::move(d)); bytes+=sizeof(Expr)+64;
        if(op==E_ITE){ auto ok=[](E y){return y->op==E_CONST||(y->op==E_ITE&&y->iteConst);}; x->iteConst=ok(b)&&ok(c); }
        tbl.emplace(h,x); return x;
    }
};
extern ExprPool P;
static inline E asE(const V&v,unsigned w){ return v.e? v.e : P.konst(v.c,w); }
static inline V asV(E e){ return e->op==E_CONST? V(e->cval) : V(0,e); }

static inline u64 foldBin(u8 op,unsigned w,u64 a,u64 b){
    u64 m=maskw(w); a&=m;b&=m;
    switch(op){
    case E_ADD:return (a+b)&m; case E_SUB:return (a-b)&m; case E_MUL:return (a*b)&m;
    case E_UDIV:return b?a/b:m; case E_UREM:return b?a%b:a;
    case E_SDIV:{i64 x=sx(a,w),y=sx(b,w); if(!y) return 0; if(y==-1) return (0-a)&m; return (u64)(x/y)&m;}
    case E_SREM:{i64 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m;}
    case E_AND:return a&b; case E_OR:return a|b; case E_XOR:return a^b;
    case E_SHL:return b>=w?0:(a<<b)&m; case E_LSHR:return b>=w?0:a>>b; case E_ASHR:return (u64)(sx(a,w)>>(b>=w?w-1:b))&m;
    case E_EQ:return a==b; case E_ULT:return a<b; case E_ULE:return a<=b; case E_SLT:return sx(a,w)<sx(b,w); case E_SLE:return sx(a,w)<=sx(b,w);
    } abort();
}
static inline bool isCmp(u8 op){ return op>=E_EQ&&op<=E_SLE; }
static inline bool oneSym(const V&a,const V&b,u32&s){
    if(a.e&&!a.e->single) return false; if(b.e&&!b.e->single) return false;
    if(a.e&&b.e&&a.e->sym!=b.e->sym) return false; s=a.e?a.e->sym:b.e->sym; return true; }

V mkBin(u8 op,unsigned w,V a,V b);
V mkIte(unsigned w,V c,V a,V b);
V mkExtract(V a,unsigned aw,unsigned lo,unsigned w);
V mkConcat(V hi,unsigned hw,V lo,unsigned lw);
V mkZext(V a,unsigned from,unsigned to);
V mkSext(V a,unsigned from,unsigned to);
static inline V mkNot(V a){ return mkBin(E_XOR,1,a,V(1)); }

inline V mkBin(u8 op,unsigned w,V a,V b){
    if(!a.e&&!b.e) return V(foldBin(op,w,a.c,b.c));
    unsigned rw=isCmp(op)?1:w; u32 s;
    if(oneSym(a,b,s)){
        u64 t[256]; const u64*ta=a.e?a.e->tab:nullptr,*tb=b.e?b.e->tab:nullptr;
        for(int i=0;i<256;i++) t[i]=foldBin(op,w,ta?ta[i]:a.c,tb?tb[i]:b.c);
        return P.tab(s,rw,t);
    }
    if(a.e==b.e&&a.e){ switch(op){case E_SUB:case E_XOR:case E_ULT:case E_SLT:return V(0);case E_AND:case E_OR:return a;case E_EQ:case E_ULE:case E_SLE:return V(1);default:;} }
    u64 m=maskw(w);
    if(!b.e){ u64 k=b.c&m; switch(op){
        case E_ADD:case E_SUB:case E_OR:case E_XOR:case E_SHL:case E_LSHR:case E_ASHR: if(k==0) return a; break;
        case E_AND: if(k==0) return V(0); if(k==m) return a; break;
        case E_MUL: if(k==0) return V(0); if(k==1) return a; break;
        case E_UDIV:case E_SDIV: if(k==1) return a; break;
        case E_ULT: if(k==0) return V(0); break; case E_ULE: if(k==m) return V(1); break; default:; }
        if(op==E_OR&&k==m) return V(m);
    }
    if(!a.e){ u64 k=a.c&m; switch(op){ case E_ADD:case E_OR:case E_XOR: if(k==0) return b; break; case E_AND: if(k==0) return V(0); if(k==m) return b; break;
        case E_MUL: if(k==0) return V(0); if(k==1) return b; break; default:; } if(op==E_OR&&k==m) return V(m); }
    // push through constant-leaf ite
    if(a.e&&!b.e&&a.e->op==E_ITE&&a.e->iteConst) return mkIte(rw,asV(a.e->a),mkBin(op,w,asV(a.e->b),b),mkBin(op,w,asV(a.e->c),b));
    if(b.e&&!a.e&&b.e->op==E_ITE&&b.e->iteConst) return mkIte(rw,asV(b.e->a),mkBin(op,w,a,asV(b.e->b)),mkBin(op,w,a,asV(b.e->c)));
    if(op==E_XOR&&w==1&&!b.e&&b.c==1&&a.e->op==E_XOR&&a.e->b->op==E_CONST&&a.e->b->cval==1) return asV(a.e->a);
    if(op==E_EQ){
        if(w==1){ if(!b.e) return b.c?a:mkNot(a); if(!a.e) return a.c?b:mkNot(b); }
        if(!a.e) std::swap(a,b);
        if(a.e&&a.e->op==E_CONCAT){ unsigned lw=a.e->b->w,hw=a.e->a->w;
            V bh=mkExtract(b,w,lw,hw), bl=mkExtract(b,w,0,lw);
            return mkBin(E_AND,1,mkBin(E_EQ,hw,asV(a.e->a),bh),mkBin(E_EQ,lw,asV(a.e->b),bl)); }
        if(b.e&&b.e->op==E_CONCAT) return mkBin(E_EQ,w,b,a);
        if(a.e&&a.e->op==E_ZEXT&&!b.e){ unsigned fw=a.e->a->w; if(b.c>maskw(fw)) return V(0); return mkBin(E_EQ,fw,asV(a.e->a),b); }
        if(a.e&&a.e->op==E_ZEXT&&b.e&&b.e->op==E_ZEXT&&a.e->a->w==b.e->a->w) return mkBin(E_EQ,a.e->a->w,asV(a.e->a),asV(b.e->a));
    }
    if((op==E_AND||op==E_OR||op==E_EQ||op==E_ADD||op==E_XOR||op==E_MUL)&&a.e&&b.e&&a.e->id>b.e->id) std::swap(a,b);
    if(op==E_AND&&!b.e&&w>8){ // low mask
        u64 k=b.c&m; if((k&(k+1))==0){ unsigned n=__builtin_ctzll(~k); return mkZext(mkExtract(a,w,0,n),n,w);} }
    if(op==E_LSHR&&!b.e&&b.c<w) return mkZext(mkExtract(a,w,b.c,w-b.c),w-b.c,w);
    if(op==E_SHL&&!b.e&&b.c<w) return mkConcat(mkExtract(a,w,0,w-b.c),w-b.c,V(0),b.c);
    if(op==E_OR&&a.e&&b.e){ // (x<<n) | zext(y)
        E x=a.e,y=b.e; if(x->op!=E_CONCAT) std::swap(x,y);
        if(x->op==E_CONCAT&&x->b->op==E_CONST&&x->b->cval==0&&y->op==E_ZEXT&&y->a->w<=x->b->w)
            return mkConcat(asV(x->a),x->a->w,mkZext(asV(y->a),y->a->w,x->b->w),x->b->w);
    }
    return V(0,P.node(op,rw,asE(a,w),asE(b,w)));
}
inline V mkIte(unsigned w,V c,V a,V b){
    if(!c.e) return c.c&1?a:b;
    if(a.e==b.e&&(a.e||((a.c^b.c)&maskw(w))==0)) return a;
    if(c.e->single&&(!a.e||(a.e->single&&a.e->sym==c.e->sym))&&(!b.e||(b.e->single&&b.e->sym==c.e->sym))){
        u64 t[256]; for(int i=0;i<256;i++) t[i]=(c.e->tab[i]?(a.e?a.e->tab[i]:a.c):(b.e?b.e->tab[i]:b.c))&maskw(w);
        return P.tab(c.e->sym,w,t);
    }
    if(w==1){
        if(!a.e) return a.c&1? mkBin(E_OR,1,c,b) : mkBin(E_AND,1,mkNot(c),b);
        if(!b.e) return b.c&1? mkBin(E_OR,1,mkNot(c),a) : mkBin(E_AND,1,c,a);
    }
    return V(0,P.node(E_ITE,w,c.e,asE(a,w),asE(b,w)));
}
inline V mkExtract(V a,unsigned aw,unsigned lo,unsigned w){
    if(lo==0&&w==aw) return a;
    if(!a.e) return V((a.c>>lo)&maskw(w));
    if(a.e->single){ u64 t[256]; for(int i=0;i<256;i++) t[i]=(a.e->tab[i]>>lo)&maskw(w); return P.tab(a.e->sym,w,t); }
    E e=a.e;
    switch(e->op){
    case E_EXTRACT: return mkExtract(asV(e->a),e->a->w,e->k+lo,w);
    case E_ZEXT: if(lo>=e->a->w) return V(0); if(lo+w<=e->a->w) return mkExtract(asV(e->a),e->a->w,lo,w);
        return mkZext(mkExtract(asV(e->a),e->a->w,lo,e->a->w-lo),e->a->w-lo,w);
    case E_SEXT: if(lo+w<=e->a->w) return mkExtract(asV(e->a),e->a->w,lo,w); break;
    case E_CONCAT: { unsigned lw=e->b->w; if(lo>=lw) return mkExtract(asV(e->a),e->a->w,lo-lw,w); if(lo+w<=lw) return mkExtract(asV(e->b),lw,lo,w);
        return mkConcat(mkExtract(asV(e->a),e->a->w,0,lo+w-lw),lo+w-lw,mkExtract(asV(e->b),lw,lo,lw-lo),lw-lo); }
    case E_AND:case E_OR:case E_XOR: return mkBin(e->op,w,mkExtract(asV(e->a),e->w,lo,w),mkExtract(asV(e->b),e->w,lo,w));
    case E_ADD:case E_SUB:case E_MUL: if(lo==0) return mkBin(e->op,w,mkExtract(asV(e->a),e->w,0,w),mkExtract(asV(e->b),e->w,0,w)); break;
    case E_ITE: return mkIte(w,asV(e->a),mkExtract(asV(e->b),e->w,lo,w),mkExtract(asV(e->c),e->w,lo,w));
    }
    return V(0,P.node(E_EXTRACT,w,e,nullptr,nullptr,lo));
}
inline V mkConcat(V hi,unsigned hw,V lo,unsigned lw){
    if(hw==0) return lo; if(lw==0) return hi;
    unsigned w=hw+lw;
    if(!hi.e&&!lo.e) return V((hi.c<<lw)|(lo.c&maskw(lw)));
    u32 s; if(oneSym(hi,lo,s)){ u64 t[256]; for(int i=0;i<256;i++) t[i]=((hi.e?hi.e->tab[i]:hi.c)<<lw|((lo.e?lo.e->tab[i]:lo.c)&maskw(lw)))&maskw(w); return P.tab(s,w,t); }
    if(!hi.e&&(hi.c&maskw(hw))==0) return mkZext(lo,lw,w);
    if(hi.e&&lo.e&&hi.e->op==E_EXTRACT&&lo.e->op==E_EXTRACT&&hi.e->a==lo.e->a&&hi.e->k==lo.e->k+lw) return mkExtract(asV(lo.e->a),lo.e->a->w,lo.e->k,w);
    // hi = extract(x,lw..), lo = low part of x expressed otherwise is handled by the byte store/load code
    return V(0,P.node(E_CONCAT,w,asE(hi,hw),asE(lo,lw)));
}
inline V mkZext(V a,unsigned f,unsigned t){
    if(f==t) return a; if(!a.e) return V(a.c&maskw(f));
    if(a.e->single) return P.tab(a.e->sym,t,a.e->tab);
    if(a.e->op==E_ZEXT) return V(0,P.node(E_ZEXT,t,a.e->a));
    if(a.e->op==E_ITE&&a.e->iteConst) return mkIte(t,asV(a.e->a),mkZext(asV(a.e->b),f,t),mkZext(asV(a.e->c),f,t));
    return V(0,P.node(E_ZEXT,t,a.e));
}
inline V mkSext(V a,unsigned f,unsigned t){
    if(f==t) return a; if(!a.e) return V((u64)sx(a.c,f)&maskw(t));
    if(a.e->single){ u64 x[256]; for(int i=0;i<256;i++) x[i]=(u64)sx(a.e->tab[i],f)&maskw(t); return P.tab(a.e->sym,t,x); }
    if(a.e->op==E_ITE&&a.e->iteConst) return mkIte(t,asV(a.e->a),mkSext(asV(a.e->b),f,t),mkSext(asV(a.e->c),f,t));
    return V(0,P.node(E_SEXT,t,a.e));
}
