// Pre-decoding of LLVM IR into a flat instruction array.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

enum IOp : u16 { I_NOP, I_BIN, I_ICMP, I_MOV, I_ZEXT, I_SEXT, I_TRUNC, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
    I_CALL, I_SELECT, I_LPAD, I_RESUME, I_UNREACH, I_ARMW, I_CMPXCHG, I_FBIN, I_FCMP, I_FCAST, I_UNSUP, I_INSELT, I_EXTELT, I_FNEG };

struct Fn;
typedef int32_t Opnd;                    // >=0 slot, <0 constant ~idx
struct Leaf { u32 off; u16 w; };
struct Move { Opnd src; i32 dst; };
struct Edge { u32 target; std::vector<Move> mv; bool overlap=false; };
struct CallX {                           // extra for calls
    Fn* callee=nullptr; Opnd target=0; std::vector<Opnd> args; std::vector<u16> argw; u32 nfixed=0;
    u32 nslots=0; std::vector<u16> retw; bool invoke=false; Edge normal, unwind; std::vector<std::pair<u32,u32>> byval; // arg index,size
    unsigned intrin=0; u16 w0=0; std::vector<u32> shuf; bool isAsm=false;
};
struct Clause { bool filter; u64 type; bool any; std::vector<u64> ftypes; };
struct Inst {
    u16 op=I_NOP; u8 sub=0; u8 w=0; u16 w2=0; u32 n=1;        // n: number of slots (vectors)
    i32 dst=-1; Opnd a=0,b=0,c=0; u64 k=0;
    std::vector<Leaf>* leaves=nullptr; std::vector<std::pair<Opnd,u64>>* idx=nullptr; std::vector<u8>* idxw=nullptr;
    Edge *e1=nullptr,*e2=nullptr; std::vector<std::pair<u64,Edge*>>* cases=nullptr; CallX* call=nullptr;
    std::vector<Clause>* clauses=nullptr; bool cleanup=false; const Instruction* ir=nullptr;
};
struct Fn {
    Function* F=nullptr; std::string name; u64 addr=0; bool decoded=false; bool prog=false; u32 id=0;
    u32 nslots=0, nparams=0; std::vector<u16> paramw; std::vector<Inst> code; std::vector<V> consts; bool vararg=false;
    int native=-1; bool decl=false;
};
struct Prog {
    LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL=nullptr;
    std::unordered_map<const Function*,Fn*> fns; std::vector<Fn*> fnList; std::unordered_map<std::string,Fn*> byName;
    std::unordered_map<const GlobalValue*,u64> gaddr; std::unordered_map<u64,Fn*> fnAt; std::unordered_map<u64,std::string> gname;

    static void flatten(const DataLayout&DL,Type*t,u32 off,std::vector<Leaf>&o){
        if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL.getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flatten(DL,st->getElementType(i),off+sl->getElementOffset(i),o); }
        else if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL.getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) flatten(DL,at->getElementType(),off+i*es,o); }
        else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL.getTypeStoreSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) flatten(DL,vt->getElementType(),off+i*es,o); }
        else if(t->isVoidTy()){}
        else o.push_back({off,(u16)(t->isPointerTy()?64:DL.getTypeSizeInBits(t).getFixedValue())});
    }
    static u32 slots(Type*t){
        if(auto*st=dyn_cast<StructType>(t)){u32 n=0; for(auto*e:st->elements()) n+=slots(e); return n;}
        if(auto*at=dyn_cast<ArrayType>(t)) return at->getNumElements()*slots(at->getElementType());
        if(auto*vt=dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
        if(t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()) return 0; return 1;
    }
    u16 width(Type*t){ if(t->isPointerTy()) return 64; return (u16)DL->getTypeSizeInBits(t->getScalarType()).getFixedValue(); }

    bool constVals(const Constant*c,std::vector<V>&out){       // flatten a constant into slots
        Type*t=c->getType();
        if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) {out.push_back(V(ci->getValue().trunc(64).getZExtValue()));return ci->getValue().getActiveBits()<=64;} out.push_back(V(ci->getZExtValue())); return true; }
        if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); out.push_back(V(b.getBitWidth()>64?b.trunc(64).getZExtValue():b.getZExtValue())); return true; }
        if(isa<ConstantPointerNull>(c)){ out.push_back(V(0)); return true; }
        if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ u32 n=slots(t); for(u32 i=0;i<n;i++) out.push_back(V(0)); return true; }
        if(auto*ca=dyn_cast<ConstantAggregate>(c)){ for(auto&o:ca->operands()) if(!constVals(cast<Constant>(o),out)) return false; return true; }
        if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) if(!constVals(cd->getElementAsConstant(i),out)) return false; return true; }
        u64 v; if(constScalar(c,v)){ out.push_back(V(v)); return true; }
        return false;
    }
    bool constScalar(const Constant*c,u64&v){
        if(auto*ci=dyn_cast<ConstantInt>(c)){ v=ci->getBitWidth()>64?ci->getValue().trunc(64).getZExtValue():ci->getZExtValue(); return true; }
        if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)){ v=0; return true; }
        if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); v=b.getBitWidth()>64?b.trunc(64).getZExtValue():b.getZExtValue(); return true; }
        if(auto*ga=dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee(),v);
        if(auto*gv=dyn_cast<GlobalValue>(c)){ auto i=gaddr.find(gv); if(i==gaddr.end()) return false; v=i->second; return true; }
        if(auto*ce=dyn_cast<ConstantExpr>(c)){
            unsigned op=ce->getOpcode();
            if(op==Instruction::GetElementPtr){ auto*g=cast<GEPOperator>(ce); APInt off(64,0); u64 b; if(!constScalar(cast<Constant>(g->getPointerOperand()),b)) return false; if(!g->accumulateConstantOffset(*DL,off)) return false; v=b+off.getSExtValue(); return true; }
            u64 a; if(!constScalar(cast<Constant>(ce->getOperand(0)),a)) return false;
            switch(op){ case Instruction::BitCast:case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::ZExt: v=a; if(ce->getType()->isIntegerTy()) v&=maskw(width(ce->getType())); return true;
                case Instruction::Trunc: v=a&maskw(width(ce->getType())); return true; default: break; }
            if(ce->getNumOperands()<2) return false; u64 b; if(!constScalar(cast<Constant>(ce->getOperand(1)),b)) return false; unsigned w=width(ce->getOperand(0)->getType());
            switch(op){ case Instruction::Add: v=foldBin(E_ADD,w,a,b); return true; case Instruction::Sub: v=foldBin(E_SUB,w,a,b); return true; case Instruction::Mul:v=foldBin(E_MUL,w,a,b);return true;
                case Instruction::And:v=a&b;return true; case Instruction::Xor:v=a^b;return true; case Instruction::Shl:v=foldBin(E_SHL,w,a,b);return true;
                case Instruction::ICmp: { auto p=(CmpInst::Predicate)ce->getPredicate(); if(p==CmpInst::ICMP_EQ) v=a==b; else if(p==CmpInst::ICMP_NE) v=a!=b; else return false; return true; } default: return false; }
        }
        return false;
    }
    void initBytes(const Constant*c,u8*out){
        Type*t=c->getType();
        if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) { return; }
        if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ if(cd->getElementByteSize()==1){ memcpy(out,cd->getRawDataValues().data(),cd->getNumElements()); return; }
            u64 es=cd->getElementByteSize(); for(unsigned i=0;i<cd->getNumElements();i++) initBytes(cd->getElementAsConstant(i),out+i*es); return; }
        if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initBytes(cs->getOperand(i),out+sl->getElementOffset(i)); return; }
        if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initBytes(ca->getOperand(i),out+i*es); return; }
        if(auto*cv=dyn_cast<ConstantVector>(c)){ u64 es=DL->getTypeStoreSize(cv->getType()->getElementType()); for(unsigned i=0;i<cv->getNumOperands();i++) initBytes(cv->getOperand(i),out+i*es); return; }
        if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); memcpy(out,b.getRawData(),DL->getTypeStoreSize(t)); return; }
        if(auto*ci=dyn_cast<ConstantInt>(c)){ memcpy(out,ci->getValue().getRawData(),DL->getTypeStoreSize(t)); return; }
        u64 v; if(!constScalar(c,v)){ errs()<<"symx: cannot evaluate initializer: "<<*c<<"\n"; return; }
        memcpy(out,&v,DL->getTypeStoreSize(t));
    }

    // ---- decoding ----
    struct Dec { Fn*f; std::unordered_map<const Value*,i32> slot; std::unordered_map<const Constant*,i32> cidx; };
    void decode(Fn*f){
        f->decoded=true; Function&F=*f->F; Dec d; d.f=f;
        u32 ns=0; for(auto&A:F.args()){ d.slot[&A]=ns; std::vector<Leaf> lv; flatten(*DL,A.getType(),0,lv); for(auto&l:lv) f->paramw.push_back(l.w); ns+=slots(A.getType()); }
        f->nparams=ns;
        std::unordered_map<const BasicBlock*,u32> bstart; u32 pc=0;
        for(auto&B:F){ bstart[&B]=pc; for(auto&I:B){ if(isa<PHINode>(I)){ d.slot[&I]=ns; ns+=slots(I.getType()); continue; } u32 n=slots(I.getType()); if(n){ d.slot[&I]=ns; ns+=n; } if(skip(I)) continue; pc++; } }
        f->nslots=ns;
        auto opnd=[&](const Value*v)->Opnd{
            if(auto*c=dyn_cast<Constant>(v)){ auto it=d.cidx.find(c); if(it!=d.cidx.end()) return ~it->second;
                i32 base=f->consts.size(); std::vector<V> o; if(!constVals(c,o)){ if(getenv("SYMX_DEBUG")) errs()<<"symx: const? "<<*c<<"\n"; o.clear(); for(u32 i=0;i<std::max(1u,slots(c->getType()));i++) o.push_back(V(0xBAD00000BADull)); }
                for(auto&x:o) f->consts.push_back(x); d.cidx[c]=base; return ~base; }
            if(isa<InlineAsm>(v)||isa<MetadataAsValue>(v)) return ~0; 
            return d.slot.at(v); };
        auto at=[&](Opnd o,u32 i)->Opnd{ return o>=0? o+(i32)i : ~((~o)+(i32)i); };
        auto edge=[&](const BasicBlock*from,const BasicBlock*to,Edge&e){
            e.target=bstart[to]; for(auto&PN:to->phis()){ const Value*v=PN.getIncomingValueForBlock(from); u32 n=slots(PN.getType()); Opnd s=opnd(v); i32 dst=d.slot[&PN]; for(u32 i=0;i<n;i++) if(at(s,i)!=dst+(i32)i) e.mv.push_back({at(s,i),dst+(i32)i}); }
            for(size_t i=0;i<e.mv.size();i++) for(size_t j=i+1;j<e.mv.size();j++) if(e.mv[j].src==e.mv[i].dst) e.overlap=true; };
        f->code.reserve(pc);
        for(auto&B:F) for(auto&I:B){
            if(isa<PHINode>(I)||skip(I)) continue;
            f->code.emplace_back(); Inst&J=f->code.back(); J.ir=&I; auto ds=d.slot.find(&I); J.dst=ds==d.slot.end()?-1:ds->second; J.n=std::max(1u,slots(I.getType()));
            if(!I.getType()->isVoidTy()&&!I.getType()->isAggregateType()){ u16 w=width(I.getType()); if(w>64&&!isa<PHINode>(I)&&!isa<LoadInst>(I)){ J.op=I_UNSUP; if(!isa<CallBase>(I)&&!I.isTerminator()) continue; } J.w=(u8)w; }
            switch(I.getOpcode()){
            case Instruction::Add:case Instruction::Sub:case Instruction::Mul:case Instruction::UDiv:case Instruction::SDiv:case Instruction::URem:case Instruction::SRem:case Instruction::And:case Instruction::Or:case Instruction::Xor:case Instruction::Shl:case Instruction::LShr:case Instruction::AShr:{
                static const std::unordered_map<unsigned,u8> m={{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::UDiv,E_UDIV},{Instruction::SDiv,E_SDIV},{Instruction::URem,E_UREM},{Instruction::SRem,E_SREM},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR}};
                J.op=I_BIN; J.sub=m.at(I.getOpcode()); J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); break; }
            case Instruction::ICmp:{ auto&C=cast<ICmpInst>(I); J.op=I_ICMP; J.w=(u8)width(C.getOperand(0)->getType()); if(width(C.getOperand(0)->getType())>64){J.op=I_UNSUP;break;} J.sub=(u8)C.getPredicate(); J.a=opnd(C.getOperand(0)); J.b=opnd(C.getOperand(1)); break; }
            case Instruction::ZExt:case Instruction::SExt:case Instruction::Trunc: J.op=I.getOpcode()==Instruction::ZExt?I_ZEXT:I.getOpcode()==Instruction::SExt?I_SEXT:I_TRUNC; J.w2=width(I.getOperand(0)->getType()); if(J.w2>64) J.op=I_UNSUP; J.a=opnd(I.getOperand(0)); break;
            case Instruction::BitCast: { u16 w1=width(I.getOperand(0)->getType()), w2=width(I.getType()); if(w1!=w2){J.op=I_UNSUP;break;} J.op=I_MOV; J.a=opnd(I.getOperand(0)); break; }
            case Instruction::PtrToInt: { u16 w2=width(I.getType()); J.a=opnd(I.getOperand(0)); if(w2<64){J.op=I_TRUNC;J.w2=64;} else J.op=I_MOV; break; }
            case Instruction::IntToPtr: { u16 w1=width(I.getOperand(0)->getType()); J.a=opnd(I.getOperand(0)); if(w1<64){J.op=I_ZEXT;J.w2=w1;} else J.op=I_MOV; break; }
            case Instruction::Freeze: case Instruction::AddrSpaceCast: J.op=I_MOV; J.a=opnd(I.getOperand(0)); break;
            case Instruction::Load:{ J.op=I_LOAD; J.a=opnd(I.getOperand(0)); J.leaves=new std::vector<Leaf>; flatten(*DL,I.getType(),0,*J.leaves); for(auto&l:*J.leaves) if(l.w>64) J.op=I_UNSUP; break; }
            case Instruction::Store:{ J.op=I_STORE; J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); J.leaves=new std::vector<Leaf>; flatten(*DL,I.getOperand(0)->getType(),0,*J.leaves); for(auto&l:*J.leaves) if(l.w>64) J.op=I_UNSUP; break; }
            case Instruction::GetElementPtr:{ auto&G=cast<GetElementPtrInst>(I); if(G.getType()->isVectorTy()){J.op=I_UNSUP;break;} J.op=I_GEP; J.a=opnd(G.getPointerOperand()); i64 off=0; 
                for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    u64 es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)){ off+=ci->getSExtValue()*(i64)es; continue; }
                    if(!J.idx){J.idx=new std::vector<std::pair<Opnd,u64>>; J.idxw=new std::vector<u8>;} J.idx->push_back({opnd(ix),es}); J.idxw->push_back(width(ix->getType())); }
                J.k=(u64)off; break; }
            case Instruction::Alloca:{ auto&A=cast<AllocaInst>(I); J.op=I_ALLOCA; J.k=DL->getTypeAllocSize(A.getAllocatedType()); J.a=opnd(A.getArraySize()); break; }
            case Instruction::Br:{ auto&Br=cast<BranchInst>(I); if(Br.isUnconditional()){ J.op=I_BR; J.e1=new Edge; edge(&B,Br.getSuccessor(0),*J.e1);} else { J.op=I_CBR; J.a=opnd(Br.getCondition()); J.e1=new Edge; J.e2=new Edge; edge(&B,Br.getSuccessor(0),*J.e1); edge(&B,Br.getSuccessor(1),*J.e2);} break; }
            case Instruction::Switch:{ auto&S=cast<SwitchInst>(I); J.op=I_SWITCH; J.w=width(S.getCondition()->getType()); J.a=opnd(S.getCondition()); J.e1=new Edge; edge(&B,S.getDefaultDest(),*J.e1); J.cases=new std::vector<std::pair<u64,Edge*>>; for(auto&c:S.cases()){ Edge*e=new Edge; edge(&B,c.getCaseSuccessor(),*e); J.cases->push_back({c.getCaseValue()->getZExtValue(),e}); } break; }
            case Instruction::Ret:{ J.op=I_RET; if(I.getNumOperands()){ J.a=opnd(I.getOperand(0)); J.n=slots(I.getOperand(0)->getType()); } else J.n=0; break; }
            case Instruction::Unreachable: J.op=I_UNREACH; break;
            case Instruction::Select:{ J.op=I_SELECT; J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); J.c=opnd(I.getOperand(2)); J.sub=I.getOperand(0)->getType()->isVectorTy(); J.leaves=new std::vector<Leaf>; flatten(*DL,I.getType(),0,*J.leaves); break; }
            case Instruction::ExtractValue:{ auto&X=cast<ExtractValueInst>(I); Opnd b=opnd(X.getAggregateOperand()); u32 off=0; Type*t=X.getAggregateOperand()->getType(); for(unsigned ix:X.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=slots(st->getElementType(k)); t=st->getElementType(ix);} else { auto*at2=cast<ArrayType>(t); off+=ix*slots(at2->getElementType()); t=at2->getElementType(); } } J.op=I_MOV; J.a=at(b,off); J.n=slots(t); break; }
            case Instruction::InsertValue:{ auto&X=cast<InsertValueInst>(I); Opnd b=opnd(X.getAggregateOperand()); u32 off=0; Type*t=X.getAggregateOperand()->getType(); for(unsigned ix:X.indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) off+=slots(st->getElementType(k)); t=st->getElementType(ix);} else { auto*at2=cast<ArrayType>(t); off+=ix*slots(at2->getElementType()); t=at2->getElementType(); } }
                J.op=I_INSELT; J.a=b; J.b=opnd(X.getInsertedValueOperand()); J.k=off; J.w2=slots(t); J.n=slots(I.getType()); break; }
            case Instruction::InsertElement:{ if(auto*ci=dyn_cast<ConstantInt>(I.getOperand(2))){ J.op=I_INSELT; J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); J.k=ci->getZExtValue(); J.w2=1; } else J.op=I_UNSUP; break; }
            case Instruction::ExtractElement:{ if(auto*ci=dyn_cast<ConstantInt>(I.getOperand(1))){ J.op=I_MOV; J.a=at(opnd(I.getOperand(0)),ci->getZExtValue()); J.n=1; } else J.op=I_UNSUP; break; }
            case Instruction::ShuffleVector:{ auto&S=cast<ShuffleVectorInst>(I); J.op=I_EXTELT; Opnd a=opnd(S.getOperand(0)),b=opnd(S.getOperand(1)); u32 n0=slots(S.getOperand(0)->getType()); J.call=new CallX; for(int m:S.getShuffleMask()) J.call->args.push_back(m<0?a:((u32)m<n0?at(a,m):at(b,m-n0))); break; }
            case Instruction::FAdd:case Instruction::FSub:case Instruction::FMul:case Instruction::FDiv: J.op=I_FBIN; J.k=I.getOpcode(); J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); if(J.w>64||J.n!=1) J.op=I_UNSUP; break;
            case Instruction::FCmp: J.op=I_FCMP; J.w=(u8)width(I.getOperand(0)->getType()); J.k=cast<FCmpInst>(I).getPredicate(); J.a=opnd(I.getOperand(0)); J.b=opnd(I.getOperand(1)); if(width(I.getOperand(0)->getType())>64||J.n!=1) J.op=I_UNSUP; break;
            case Instruction::SIToFP:case Instruction::UIToFP:case Instruction::FPToSI:case Instruction::FPToUI:case Instruction::FPExt:case Instruction::FPTrunc: J.op=I_FCAST; J.k=I.getOpcode(); J.w2=width(I.getOperand(0)->getType()); J.a=opnd(I.getOperand(0)); if(J.w2>64||J.n!=1||width(I.getType())>64) J.op=I_UNSUP; break;
            case Instruction::LandingPad:{ auto&L=cast<LandingPadInst>(I); J.op=I_LPAD; J.cleanup=L.isCleanup(); J.clauses=new std::vector<Clause>; for(unsigned i=0;i<L.getNumClauses();i++){ Clause c; c.filter=L.isFilter(i); c.any=false; c.type=0; Constant*v=L.getClause(i); if(!c.filter){ u64 x=0; constScalar(v,x); c.type=x; c.any=x==0; } else { std::vector<V> o; constVals(v,o); for(auto&q:o) c.ftypes.push_back(q.c); } J.clauses->push_back(c);} break; }
            case Instruction::Resume: J.op=I_RESUME; J.a=opnd(I.getOperand(0)); break;
            case Instruction::Fence: J.op=I_NOP; break;
            case Instruction::AtomicRMW:{ auto&A=cast<AtomicRMWInst>(I); J.op=I_ARMW; J.k=A.getOperation(); J.a=opnd(A.getPointerOperand()); J.b=opnd(A.getValOperand()); break; }
            case Instruction::AtomicCmpXchg:{ auto&A=cast<AtomicCmpXchgInst>(I); J.op=I_CMPXCHG; J.w=width(A.getCompareOperand()->getType()); J.a=opnd(A.getPointerOperand()); J.b=opnd(A.getCompareOperand()); J.c=opnd(A.getNewValOperand()); break; }
            case Instruction::Call:case Instruction::Invoke:{
                auto&CB=cast<CallBase>(I); bool uns=J.op==I_UNSUP; J.op=I_CALL; auto*X=J.call=new CallX; if(uns) X->isAsm=true;
                Value*cv=CB.getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
                if(isa<InlineAsm>(cv)) X->isAsm=true;
                else if(auto*cf=dyn_cast<Function>(cv)){ X->callee=fns[cf]; X->intrin=cf->getIntrinsicID(); } else X->target=opnd(CB.getCalledOperand());
                X->nfixed=0; u32 k=0; FunctionType*FT=CB.getFunctionType();
                for(unsigned i=0;i<CB.arg_size();i++){ Value*av=CB.getArgOperand(i); if(av->getType()->isMetadataTy()) continue; std::vector<Leaf> lv; flatten(*DL,av->getType(),0,lv); Opnd o=opnd(av); if(CB.isByValArgument(i)) X->byval.push_back({(u32)X->args.size(),(u32)DL->getTypeAllocSize(CB.getParamByValType(i))}); for(u32 q=0;q<lv.size();q++){ X->args.push_back(at(o,q)); X->argw.push_back(lv[q].w); k++; } if(i<FT->getNumParams()) X->nfixed=k; }
                if(CB.arg_size()&&!CB.getArgOperand(0)->getType()->isMetadataTy()) X->w0=slots(CB.getArgOperand(0)->getType())==1?width(CB.getArgOperand(0)->getType()):0;
                std::vector<Leaf> rl; flatten(*DL,CB.getType(),0,rl); for(auto&l:rl) X->retw.push_back(l.w); X->nslots=rl.size();
                if(auto*IV=dyn_cast<InvokeInst>(&I)){ X->invoke=true; edge(&B,IV->getNormalDest(),X->normal); edge(&B,IV->getUnwindDest(),X->unwind); }
                break; }
            case Instruction::FNeg: J.op=I_FNEG; J.a=opnd(I.getOperand(0)); break;
            default: J.op=I_UNSUP;
            }
        }
        f->vararg=F.isVarArg();
    }
    static bool skip(const Instruction&I){ if(auto*II=dyn_cast<IntrinsicInst>(&I)){ switch(II->getIntrinsicID()){ case Intrinsic::dbg_declare:case Intrinsic::dbg_value:case Intrinsic::dbg_label:case Intrinsic::dbg_assign:case Intrinsic::lifetime_start:case Intrinsic::lifetime_end:case Intrinsic::assume:case Intrinsic::donothing:case Intrinsic::experimental_noalias_scope_decl:case Intrinsic::prefetch:case Intrinsic::var_annotation:case Intrinsic::invariant_end:return true; default:return false; } } return false; }
};
