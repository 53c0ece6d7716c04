// Symbolic-execution instrumentation pass (LLVM 18, new pass manager).
//
// Every SSA value of a "shadowable" type (integer <= 64 bits, pointer, double,
// or a struct of those) gets a parallel i32 "shadow": 0 = concrete, otherwise the
// id of a bit-vector expression in the run-time.  A value whose shadow is
// non-zero is *only* its expression: its machine bits are meaningless.
// Everything the pass does not model is made concrete first by __symi_conc (which
// forks one process per feasible value, so no value is lost).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/AttributeMask.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <fstream>
#include "ops.h"
using namespace llvm;

static cl::opt<std::string> Models("sym-models", cl::desc("file: names replaced by __m_<name>"), cl::init(""));
static cl::opt<std::string> Report("sym-report", cl::desc("report file"), cl::init(""));

namespace {
struct Sym {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I1,*I8,*I16,*I32,*I64,*Ptr,*Void,*Dbl;
  std::set<std::string> natives, fallbacks, instrumented;
  GlobalVariable *GArgs,*GRet,*GCallee,*GByval;
  Sym(Module &M):M(M),C(M.getContext()),DL(M.getDataLayout()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I16=Type::getInt16Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);
    Ptr=PointerType::getUnqual(C);Void=Type::getVoidTy(C);Dbl=Type::getDoubleTy(C);
    auto gv=[&](const char*n,Type*t){
      if(auto*g=M.getNamedGlobal(n)) return g;
      return new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n);
    };
    GArgs=gv("__sym_args",ArrayType::get(I32,64));
    GRet=gv("__sym_ret",ArrayType::get(I32,8));
    GCallee=gv("__sym_callee",Ptr);
    GByval=gv("__sym_byval",ArrayType::get(Ptr,64));
  }
  FunctionCallee fn(const char*n,Type*r,ArrayRef<Type*>a){return M.getOrInsertFunction(n,FunctionType::get(r,a,false));}
  bool scalar(Type*t){
    if(auto*it=dyn_cast<IntegerType>(t)) return it->getBitWidth()<=64;
    return t->isPointerTy()||t->isDoubleTy()||t->isFloatTy();
  }
  unsigned width(Type*t){
    if(auto*it=dyn_cast<IntegerType>(t)) return it->getBitWidth();
    if(t->isFloatTy()) return 32;
    return 64;
  }
  bool aggr(Type*t){
    auto*st=dyn_cast<StructType>(t);
    if(!st||st->getNumElements()>8) return false;
    for(auto*e:st->elements()) if(!scalar(e)) return false;
    return st->getNumElements()>0;
  }
  Type* shTy(Type*t){ if(scalar(t)) return I32; if(aggr(t)) return ArrayType::get(I32,t->getStructNumElements()); return nullptr; }

  DenseMap<Value*,Value*> S;
  Value* zero(Type*t){ return Constant::getNullValue(shTy(t)); }
  Value* sh(Value*v){
    Type*st=shTy(v->getType()); if(!st) return nullptr;
    if(isa<Constant>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return zero(v->getType());
    auto it=S.find(v); if(it!=S.end()) return it->second;
    return zero(v->getType());
  }
  bool isZero(Value*s){ return !s||(isa<Constant>(s)&&cast<Constant>(s)->isNullValue()); }
  Value* toI64(IRBuilder<>&B,Value*v){
    Type*t=v->getType();
    if(t->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if(t->isDoubleTy()) return B.CreateBitCast(v,I64);
    if(t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if(width(t)<64) return B.CreateZExt(v,I64);
    return v;
  }
  Value* fromI64(IRBuilder<>&B,Value*v,Type*t){
    if(t->isPointerTy()) return B.CreateIntToPtr(v,t);
    if(t->isDoubleTy()) return B.CreateBitCast(v,t);
    if(t->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(v,I32),t);
    if(width(t)<64) return B.CreateTrunc(v,t);
    return v;
  }
  // concretise operand
  Value* conc(IRBuilder<>&B,Value*v){
    Value*s=sh(v); if(isZero(s)) return v;
    if(!scalar(v->getType())){ // struct
      Value*r=v;
      for(unsigned i=0;i<v->getType()->getStructNumElements();i++){
        Value*e=B.CreateExtractValue(v,i); Value*es=B.CreateExtractValue(s,i);
        Value*c=B.CreateCall(fn("__symi_conc",I64,{I64,I32,I32}),{toI64(B,e),es,B.getInt32(width(e->getType()))});
        r=B.CreateInsertValue(r,fromI64(B,c,e->getType()),i);
      }
      return r;
    }
    Value*c=B.CreateCall(fn("__symi_conc",I64,{I64,I32,I32}),{toI64(B,v),s,B.getInt32(width(v->getType()))});
    return fromI64(B,c,v->getType());
  }
  Value* bin(IRBuilder<>&B,int op,unsigned w,Value*a,Value*sa,Value*b,Value*sb){
    if(isZero(sa)&&isZero(sb)) return B.getInt32(0);
    return B.CreateCall(fn("__symi_bin",I32,{I32,I32,I64,I32,I64,I32}),
      {B.getInt32(op),B.getInt32(w),toI64(B,a),sa,toI64(B,b),sb});
  }
  Value* un(IRBuilder<>&B,int op,unsigned wi,unsigned wo,Value*s){
    if(isZero(s)) return B.getInt32(0);
    return B.CreateCall(fn("__symi_un",I32,{I32,I32,I32,I32}),{B.getInt32(op),B.getInt32(wi),B.getInt32(wo),s});
  }
  Value* ite(IRBuilder<>&B,unsigned w,Value*c,Value*sc,Value*a,Value*sa,Value*b,Value*sb){
    if(isZero(sc)&&isZero(sa)&&isZero(sb)) return B.getInt32(0);
    return B.CreateCall(fn("__symi_ite",I32,{I32,I32,I32,I64,I32,I64,I32}),
      {B.getInt32(w),B.CreateZExt(c,I32),sc,toI64(B,a),sa,toI64(B,b),sb});
  }
  void fallback(Instruction*I,const std::string&why){
    IRBuilder<> B(I);
    for(unsigned i=0;i<I->getNumOperands();i++){
      Value*o=I->getOperand(i);
      if(isa<BasicBlock>(o)) continue;
      if(!isZero(sh(o))) I->setOperand(i,conc(B,o));
    }
    fallbacks.insert(why+":"+std::string(I->getOpcodeName()));
  }
  bool skipName(StringRef n){ return n.starts_with("__sym")||n.starts_with("llvm.")||n.starts_with("asan.")||n.starts_with("__asan"); }

  void run(){
    // inline copies of library functions (code generation would call the library instead)
    for(auto&F:M) if(F.hasAvailableExternallyLinkage()&&!F.isDeclaration()){ F.deleteBody(); }
    // model substitution
    if(!Models.empty()){
      std::ifstream f(Models); std::string n;
      while(f>>n){
        Function*F=M.getFunction(n);
        if(!F||!F->isDeclaration()) continue;
        auto g=M.getOrInsertFunction("__m_"+n,F->getFunctionType());
        F->replaceAllUsesWith(g.getCallee());
      }
    }
    // symbolic values carry meaningless machine bits: drop every fact the optimiser could derive from them
    for(auto&F:M){
      if(skipName(F.getName())) continue;
      auto strip=[&](AttributeList AL){
        for(auto k:{Attribute::Memory,Attribute::Speculatable,Attribute::WillReturn,Attribute::NoSync,Attribute::NoFree,Attribute::NoRecurse,Attribute::MustProgress,Attribute::AllocKind,Attribute::AllocSize,Attribute::OptimizeNone}) AL=AL.removeFnAttribute(C,k);
        AttributeMask m; for(auto k:{Attribute::NonNull,Attribute::NoUndef,Attribute::NoAlias,Attribute::NoCapture,Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly,Attribute::Returned,Attribute::Dereferenceable,Attribute::DereferenceableOrNull,Attribute::Alignment}) m.addAttribute(k);
        AL=AL.removeRetAttributes(C,m);
        for(unsigned i=0;i<64;i++){ if(AL.hasParamAttr(i,Attribute::ByVal)||AL.hasParamAttr(i,Attribute::StructRet)) { AttributeMask m2; for(auto k:{Attribute::NoAlias,Attribute::NoCapture,Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly}) m2.addAttribute(k); AL=AL.removeParamAttributes(C,i,m2);} else AL=AL.removeParamAttributes(C,i,m);} 
        return AL; };
      F.setAttributes(strip(F.getAttributes()));
      for(auto&BB:F) for(auto&I:BB){
        if(auto*CB=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(CB)) CB->setAttributes(strip(CB->getAttributes()));
        I.dropPoisonGeneratingFlagsAndMetadata();
        for(auto md:{LLVMContext::MD_range,LLVMContext::MD_nonnull,LLVMContext::MD_noundef,LLVMContext::MD_dereferenceable,LLVMContext::MD_dereferenceable_or_null,LLVMContext::MD_align,LLVMContext::MD_invariant_load,LLVMContext::MD_tbaa,LLVMContext::MD_alias_scope,LLVMContext::MD_noalias,LLVMContext::MD_loop}) I.setMetadata(md,nullptr);
      }
      std::vector<Instruction*> dead;
      for(auto&BB:F) for(auto&I:BB) if(auto*II=dyn_cast<IntrinsicInst>(&I)) if(II->getIntrinsicID()==Intrinsic::assume||II->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl) dead.push_back(&I);
      for(auto*I:dead) I->eraseFromParent();
    }
    std::vector<Function*> fs;
    for(auto&F:M) if(!F.isDeclaration()&&!skipName(F.getName())) fs.push_back(&F);
    for(auto*F:fs){ instrumented.insert(F->getName().str()); runF(*F); }
    if(!Report.empty()){
      std::ofstream o(Report);
      for(auto&s:instrumented) o<<"I "<<s<<"\n";
      for(auto&s:natives) o<<"N "<<s<<"\n";
      for(auto&s:fallbacks) o<<"F "<<s<<"\n";
    }
  }

  void runF(Function&F){
    S.clear();
    std::vector<Instruction*> work;
    ReversePostOrderTraversal<Function*> RPO(&F);
    for(auto*BB:RPO) for(auto&I:*BB) work.push_back(&I);
    // entry: argument shadows
    {
      Instruction*ip=&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
      // keep allocas first: insert after the leading static allocas
      IRBuilder<> B(ip);
      bool need=F.arg_size()>0;
      if(need){
        Value*callee=B.CreateLoad(Ptr,GCallee);
        Value*valid=B.CreateICmpEQ(callee,&F);
        unsigned slot=0;
        for(auto&A:F.args()){
          unsigned my=slot++;
          if(my>=64) break;
          if(A.hasByValAttr()){
            uint64_t sz=DL.getTypeAllocSize(A.getParamByValType());
            Value*src=B.CreateLoad(Ptr,B.CreateConstInBoundsGEP2_32(ArrayType::get(Ptr,64),GByval,0,my));
            B.CreateCall(fn("__symi_byval",Void,{I32,Ptr,Ptr,I64}),{B.CreateZExt(valid,I32),&A,src,B.getInt64(sz)});
            continue;
          }
          if(!scalar(A.getType())) continue;
          Value*l=B.CreateLoad(I32,B.CreateConstInBoundsGEP2_32(ArrayType::get(I32,64),GArgs,0,my));
          S[&A]=B.CreateCall(fn("__symi_arg",I32,{I32,I32}),{B.CreateSelect(valid,l,B.getInt32(0)),B.getInt32(width(A.getType()))});
        }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)),GCallee);
      }
    }
    std::vector<std::pair<PHINode*,PHINode*>> phis;
    for(auto*I:work) inst(F,I,phis);
    for(auto&p:phis){
      for(unsigned i=0;i<p.first->getNumIncomingValues();i++)
        p.second->addIncoming(sh(p.first->getIncomingValue(i)),p.first->getIncomingBlock(i));
    }
  }

  void inst(Function&F,Instruction*I,std::vector<std::pair<PHINode*,PHINode*>>&phis){
    if(I->isDebugOrPseudoInst()) return;
    Type*T=I->getType();
    if(auto*P=dyn_cast<PHINode>(I)){
      Type*st=shTy(T); if(!st) { return; }
      IRBuilder<> B(P);
      auto*q=B.CreatePHI(st,P->getNumIncomingValues());
      phis.push_back({P,q}); S[P]=q; return;
    }
    // insertion point right after I (for value producers)
    auto after=[&]{ return I->getNextNode(); };
    if(auto*A=dyn_cast<AllocaInst>(I)){
      if(!isa<Constant>(A->getArraySize())){ IRBuilder<> B(I); I->setOperand(0,conc(B,A->getArraySize())); }
      // clear stale shadow of the slot; insert after all leading allocas
      Instruction*ip=I->getNextNode();
      while(isa<AllocaInst>(ip)) ip=ip->getNextNode();
      IRBuilder<> B(ip);
      Value*sz=B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(),I64),B.getInt64(DL.getTypeAllocSize(A->getAllocatedType())));
      B.CreateCall(fn("__symi_clear",Void,{Ptr,I64}),{A,sz});
      return;
    }
    if(auto*L=dyn_cast<LoadInst>(I)){
      IRBuilder<> B(I);
      uint64_t sz=DL.getTypeStoreSize(T);
      Value*sp=sh(L->getPointerOperand());
      if(L->isAtomic()||!scalar(T)){
        if(!isZero(sp)) L->setOperand(0,conc(B,L->getPointerOperand()));
        B.CreateCall(fn("__symi_concmem",Void,{Ptr,I64}),{L->getPointerOperand(),B.getInt64(sz)});
        if(!scalar(T)) fallbacks.insert("load-type");
        return;
      }
      if(!isZero(sp)){
        Value*p=B.CreateCall(fn("__symi_ldptr",Ptr,{Ptr,I32,I64}),{L->getPointerOperand(),sp,B.getInt64(sz)});
        L->setOperand(0,p);
      }
      // shadow is fetched BEFORE the load so that pending LUT shadows are consumed
      S[I]=B.CreateCall(fn("__symi_load",I32,{Ptr,I64,I32}),{L->getPointerOperand(),B.getInt64(sz),B.getInt32(width(T))});
      return;
    }
    if(auto*St=dyn_cast<StoreInst>(I)){
      IRBuilder<> B(I);
      Value*v=St->getValueOperand(); uint64_t sz=DL.getTypeStoreSize(v->getType());
      Value*sp=sh(St->getPointerOperand());
      if(!isZero(sp)) St->setOperand(1,conc(B,St->getPointerOperand()));
      if(St->isAtomic()||!scalar(v->getType())){
        if(!isZero(sh(v))) St->setOperand(0,conc(B,v));
        B.CreateCall(fn("__symi_clearw",Void,{Ptr,I64}),{St->getPointerOperand(),B.getInt64(sz)});
        return;
      }
      IRBuilder<> A(after());
      A.CreateCall(fn("__symi_store",Void,{Ptr,I64,I32,I32}),{St->getPointerOperand(),B.getInt64(sz),B.getInt32(width(v->getType())),sh(v)});
      return;
    }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){
      if(!scalar(T)){ fallback(I,"vecgep"); return; }
      IRBuilder<> B(after());
      Value*base=G->getPointerOperand(); Value*sb=sh(base);
      bool any=!isZero(sb); for(auto&ix:G->indices()) any|=!isZero(sh(ix));
      if(!any) return;
      APInt coff(64,0); Value*cur=base;Value*cs=sb;
      uint64_t constOff=0;
      for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){
        Value*ix=gi.getOperand();
        if(auto*st=gi.getStructTypeOrNull()){
          constOff+=DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue;
        }
        uint64_t esz=gi.getSequentialElementStride(DL);
        if(auto*ci=dyn_cast<ConstantInt>(ix)){ constOff+=ci->getSExtValue()*esz; continue; }
        Value*s=sh(ix);
        unsigned w=width(ix->getType());
        Value*i64=ix;
        if(w<64){ i64=B.CreateSExt(ix,I64); s=un(B,OP_SEXT,w,64,s);} 
        Value*t=B.CreateMul(i64,B.getInt64(esz)); Value*ts=bin(B,OP_MUL,64,i64,s,B.getInt64(esz),B.getInt32(0));
        Value*ci=toI64(B,cur);
        Value*ns=bin(B,OP_ADD,64,ci,cs,t,ts);
        cur=B.CreateAdd(ci,t); cs=ns;
      }
      if(constOff) cs=bin(B,OP_ADD,64,cur,cs,B.getInt64(constOff),B.getInt32(0));
      S[I]=cs; return;
    }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      if(!scalar(T)||T->isFloatTy()){ fallback(I,"bin"); return; }
      int op=-1;
      switch(BO->getOpcode()){
        case Instruction::Add:op=OP_ADD;break;case Instruction::Sub:op=OP_SUB;break;case Instruction::Mul:op=OP_MUL;break;
        case Instruction::UDiv:op=OP_UDIV;break;case Instruction::SDiv:op=OP_SDIV;break;case Instruction::URem:op=OP_UREM;break;case Instruction::SRem:op=OP_SREM;break;
        case Instruction::And:op=OP_AND;break;case Instruction::Or:op=OP_OR;break;case Instruction::Xor:op=OP_XOR;break;
        case Instruction::Shl:op=OP_SHL;break;case Instruction::LShr:op=OP_LSHR;break;case Instruction::AShr:op=OP_ASHR;break;
        case Instruction::FAdd:op=OP_FADD;break;case Instruction::FSub:op=OP_FSUB;break;case Instruction::FMul:op=OP_FMUL;break;case Instruction::FDiv:op=OP_FDIV;break;
        default:break;
      }
      if(op<0){ fallback(I,"bin"); return; }
      Value*a=I->getOperand(0),*b=I->getOperand(1);
      Value*sa=sh(a),*sb=sh(b);
      if(isZero(sa)&&isZero(sb)) return;
      if(op==OP_UDIV||op==OP_SDIV||op==OP_UREM||op==OP_SREM){
        IRBuilder<> B(I);
        // the divisor is decided non-zero (or a division-by-zero violation is recorded) before
        Value*b2=B.CreateCall(fn("__symi_divisor",I64,{I64,I32,I64,I32,I32}),{toI64(B,b),sb,toI64(B,a),sa,B.getInt32(width(T))});
        Value*any=B.CreateICmpNE(B.CreateOr(sa,sb),B.getInt32(0));
        Value*bs=fromI64(B,b2,T);
        S[I]=bin(B,op,width(T),a,sa,b,sb);
        I->setOperand(0,B.CreateSelect(any,ConstantInt::get(T,1),a));
        I->setOperand(1,bs);
        return;
      }
      IRBuilder<> B(after());
      S[I]=bin(B,op,width(T),a,sa,b,sb); return;
    }
    if(auto*CI=dyn_cast<ICmpInst>(I)){
      if(!scalar(CI->getOperand(0)->getType())){ fallback(I,"icmp"); return; }
      IRBuilder<> B(after());
      Value*a=CI->getOperand(0),*b=CI->getOperand(1); Value*sa=sh(a),*sb=sh(b);
      int op=OP_EQ; bool sw=false;
      switch(CI->getPredicate()){
        case CmpInst::ICMP_EQ:op=OP_EQ;break;case CmpInst::ICMP_NE:op=OP_NE;break;
        case CmpInst::ICMP_ULT:op=OP_ULT;break;case CmpInst::ICMP_ULE:op=OP_ULE;break;
        case CmpInst::ICMP_UGT:op=OP_ULT;sw=true;break;case CmpInst::ICMP_UGE:op=OP_ULE;sw=true;break;
        case CmpInst::ICMP_SLT:op=OP_SLT;break;case CmpInst::ICMP_SLE:op=OP_SLE;break;
        case CmpInst::ICMP_SGT:op=OP_SLT;sw=true;break;case CmpInst::ICMP_SGE:op=OP_SLE;sw=true;break;
        default:break;
      }
      if(sw){std::swap(a,b);std::swap(sa,sb);}
      S[I]=bin(B,op,width(a->getType()),a,sa,b,sb); return;
    }
    if(auto*FC=dyn_cast<FCmpInst>(I)){
      if(!FC->getOperand(0)->getType()->isDoubleTy()){ fallback(I,"fcmp"); return; }
      IRBuilder<> B(after());
      Value*a=FC->getOperand(0),*b=FC->getOperand(1); Value*sa=sh(a),*sb=sh(b);
      S[I]=bin(B,OP_FCMP+(int)FC->getPredicate(),64,a,sa,b,sb); return;
    }
    if(auto*U=dyn_cast<UnaryOperator>(I)){
      if(!T->isDoubleTy()){ fallback(I,"un"); return; }
      IRBuilder<> B(after()); S[I]=un(B,OP_FNEG,64,64,sh(U->getOperand(0))); return;
    }
    if(auto*CA=dyn_cast<CastInst>(I)){
      Type*ST=CA->getSrcTy();
      if(!scalar(T)||!scalar(ST)){ fallback(I,"cast"); return; }
      IRBuilder<> B(after()); Value*s=sh(CA->getOperand(0));
      if(isZero(s)) return;
      unsigned wi=width(ST),wo=width(T);
      switch(CA->getOpcode()){
        case Instruction::ZExt: S[I]=un(B,OP_ZEXT,wi,wo,s);return;
        case Instruction::SExt: S[I]=un(B,OP_SEXT,wi,wo,s);return;
        case Instruction::Trunc: S[I]=un(B,OP_TRUNC,wi,wo,s);return;
        case Instruction::BitCast: S[I]=s;return;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          S[I]= wi==wo? s : (wi<wo? un(B,OP_ZEXT,wi,wo,s):un(B,OP_TRUNC,wi,wo,s)); return;
        case Instruction::SIToFP: if(T->isDoubleTy()){S[I]=un(B,OP_SITOFP,wi,wo,s);return;} break;
        case Instruction::UIToFP: if(T->isDoubleTy()){S[I]=un(B,OP_UITOFP,wi,wo,s);return;} break;
        case Instruction::FPToSI: if(ST->isDoubleTy()){S[I]=un(B,OP_FPTOSI,wi,wo,s);return;} break;
        case Instruction::FPToUI: if(ST->isDoubleTy()){S[I]=un(B,OP_FPTOUI,wi,wo,s);return;} break;
        default:break;
      }
      fallback(I,"cast"); return;
    }
    if(auto*Se=dyn_cast<SelectInst>(I)){
      if(!Se->getCondition()->getType()->isIntegerTy(1)){ fallback(I,"select"); return; }
      if(!scalar(T)){
        IRBuilder<> B(I);
        Value*c=Se->getCondition();
        if(!isZero(sh(c))) Se->setOperand(0,conc(B,c));
        if(shTy(T)) S[I]=B.CreateSelect(Se->getCondition(),sh(Se->getTrueValue()),sh(Se->getFalseValue()));
        return;
      }
      IRBuilder<> B(after());
      S[I]=ite(B,width(T),Se->getCondition(),sh(Se->getCondition()),Se->getTrueValue(),sh(Se->getTrueValue()),Se->getFalseValue(),sh(Se->getFalseValue()));
      return;
    }
    if(isa<FreezeInst>(I)){ Value*s=sh(I->getOperand(0)); if(s) S[I]=s; return; }
    if(auto*EV=dyn_cast<ExtractValueInst>(I)){
      Value*s=sh(EV->getAggregateOperand());
      if(isZero(s)||!scalar(T)||EV->getNumIndices()!=1) return;
      IRBuilder<> B(after()); S[I]=B.CreateExtractValue(s,EV->getIndices()[0]); return;
    }
    if(auto*IV=dyn_cast<InsertValueInst>(I)){
      if(!shTy(T)||IV->getNumIndices()!=1){ fallback(I,"insertvalue"); return; }
      IRBuilder<> B(after());
      S[I]=B.CreateInsertValue(sh(IV->getAggregateOperand()),sh(IV->getInsertedValueOperand()),IV->getIndices()[0]); return;
    }
    if(auto*Br=dyn_cast<BranchInst>(I)){
      if(Br->isConditional()&&!isZero(sh(Br->getCondition()))){
        IRBuilder<> B(I);
        Value*c=B.CreateCall(fn("__symi_br",I32,{I32,I32}),{B.CreateZExt(Br->getCondition(),I32),sh(Br->getCondition())});
        Br->setCondition(B.CreateICmpNE(c,B.getInt32(0)));
      }
      return;
    }
    if(auto*R=dyn_cast<ReturnInst>(I)){
      Value*v=R->getReturnValue(); if(!v) return;
      IRBuilder<> B(I);
      if(scalar(v->getType())) B.CreateStore(sh(v),GRet);
      else if(aggr(v->getType())){
        for(unsigned i=0;i<v->getType()->getStructNumElements();i++)
          B.CreateStore(B.CreateExtractValue(sh(v),i),B.CreateConstInBoundsGEP2_32(ArrayType::get(I32,8),GRet,0,i));
      } else fallback(I,"ret");
      return;
    }
    if(isa<UnreachableInst>(I)) return;
    if(isa<FenceInst>(I)) return;
    if(auto*CB=dyn_cast<CallBase>(I)){ call(CB); return; }
    if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)){
      IRBuilder<> B(I);
      Value*p=I->getOperand(0);
      uint64_t sz=DL.getTypeStoreSize(I->getOperand(1)->getType());
      fallback(I,"atomic");
      IRBuilder<> B2(I);
      B2.CreateCall(fn("__symi_concmem",Void,{Ptr,I64}),{I->getOperand(0),B2.getInt64(sz)});
      B2.CreateCall(fn("__symi_clearw",Void,{Ptr,I64}),{I->getOperand(0),B2.getInt64(sz)});
      (void)p; return;
    }
    fallback(I,"other");
  }

  void call(CallBase*CB){
    Instruction*I=CB; Type*T=I->getType();
    if(auto*II=dyn_cast<IntrinsicInst>(I)){ intrinsic(II); return; }
    Function*callee=dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if(CB->isInlineAsm()){ fallback(I,"asm"); return; }
    bool proto=true;
    if(callee){
      StringRef n=callee->getName();
      if(skipName(n)) return;
      if(callee->isDeclaration()){
        if(n.starts_with("sym_")||n.starts_with("__m_")) proto=true;
        else { // maybe defined in another instrumented module: modules are linked before the pass
          proto=false;
        }
      }
    }
    IRBuilder<> B(I);
    if(!callee && !isZero(sh(CB->getCalledOperand()))) CB->setCalledOperand(conc(B,CB->getCalledOperand()));
    if(!proto){
      for(unsigned i=0;i<CB->arg_size();i++){
        Value*o=CB->getArgOperand(i);
        if(!isZero(sh(o))) CB->setArgOperand(i,conc(B,o));
      }
      natives.insert(callee->getName().str());
      return;
    }
    Value*tgt=CB->getCalledOperand();
    unsigned n=CB->arg_size(); 
    for(unsigned i=0;i<n&&i<64;i++){
      Value*o=CB->getArgOperand(i);
      if(CB->isByValArgument(i)){
        if(!isZero(sh(o))) { CB->setArgOperand(i,conc(B,o)); o=CB->getArgOperand(i);} 
        B.CreateStore(o,B.CreateConstInBoundsGEP2_32(ArrayType::get(Ptr,64),GByval,0,i));
        continue;
      }
      if(scalar(o->getType()))
        B.CreateStore(sh(o),B.CreateConstInBoundsGEP2_32(ArrayType::get(I32,64),GArgs,0,i));
      else if(!isZero(sh(o))) CB->setArgOperand(i,conc(B,o));
    }
    B.CreateStore(tgt,GCallee);
    if(scalar(T)) B.CreateStore(B.getInt32(0),GRet);
    else if(aggr(T)) for(unsigned i=0;i<T->getStructNumElements();i++) B.CreateStore(B.getInt32(0),B.CreateConstInBoundsGEP2_32(ArrayType::get(I32,8),GRet,0,i));
    Instruction*ip;
    if(auto*Inv=dyn_cast<InvokeInst>(I)) ip=&*Inv->getNormalDest()->getFirstInsertionPt();
    else ip=I->getNextNode();
    IRBuilder<> A(ip);
    if(scalar(T)) S[I]=A.CreateCall(fn("__symi_arg",I32,{I32,I32}),{A.CreateLoad(I32,GRet),B.getInt32(width(T))});
    else if(aggr(T)){
      Value*r=zero(T);
      for(unsigned i=0;i<T->getStructNumElements();i++)
        r=A.CreateInsertValue(r,A.CreateLoad(I32,A.CreateConstInBoundsGEP2_32(ArrayType::get(I32,8),GRet,0,i)),i);
      S[I]=r;
    }
    if(auto*ci=dyn_cast<CallInst>(I)) ci->setTailCallKind(CallInst::TCK_None);
    if(CB->hasFnAttr(Attribute::Memory)) CB->removeFnAttr(Attribute::Memory);
  }

  void intrinsic(IntrinsicInst*II){
    Instruction*I=II; Type*T=I->getType();
    auto opnd=[&](unsigned i){return II->getArgOperand(i);};
    switch(II->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{
        IRBuilder<> B(I);
        for(unsigned i=0;i<3;i++) if(!isZero(sh(opnd(i)))) II->setArgOperand(i,conc(B,opnd(i)));
        B.CreateCall(fn("__symi_memcpy",Void,{Ptr,Ptr,I64}),{opnd(0),opnd(1),B.CreateZExtOrTrunc(opnd(2),I64)});
        return; }
      case Intrinsic::memset: case Intrinsic::memset_inline:{
        IRBuilder<> B(I);
        for(unsigned i=0;i<3;i+=2) if(!isZero(sh(opnd(i)))) II->setArgOperand(i,conc(B,opnd(i)));
        B.CreateCall(fn("__symi_memset",Void,{Ptr,I32,I64}),{opnd(0),sh(opnd(1)),B.CreateZExtOrTrunc(opnd(2),I64)});
        return; }
      case Intrinsic::lifetime_start: {
        if(auto*A=dyn_cast<AllocaInst>(II->getArgOperand(1)->stripPointerCasts())){
          IRBuilder<> B(I->getNextNode());
          B.CreateCall(fn("__symi_clear",Void,{Ptr,I64}),{A,B.getInt64(DL.getTypeAllocSize(A->getAllocatedType()))});
        }
        return; }
      case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
      case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::trap: return;
      case Intrinsic::expect: S[I]=sh(opnd(0)); return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:{
        if(!scalar(T)){ fallback(I,"intr"); return; }
        if(isZero(sh(opnd(0)))&&isZero(sh(opnd(1)))) return;
        IRBuilder<> B(I->getNextNode()); auto id=II->getIntrinsicID();
        bool sg=id==Intrinsic::smin||id==Intrinsic::smax; bool mn=id==Intrinsic::smin||id==Intrinsic::umin;
        Value*c=sg?B.CreateICmpSLT(opnd(0),opnd(1)):B.CreateICmpULT(opnd(0),opnd(1));
        Value*sc=bin(B,sg?OP_SLT:OP_ULT,width(T),opnd(0),sh(opnd(0)),opnd(1),sh(opnd(1)));
        int a=mn?0:1;
        S[I]=ite(B,width(T),c,sc,opnd(a),sh(opnd(a)),opnd(1-a),sh(opnd(1-a))); return; }
      case Intrinsic::abs:{
        if(!scalar(T)||isZero(sh(opnd(0)))) { if(!scalar(T)) fallback(I,"intr"); return; }
        IRBuilder<> B(I->getNextNode()); Value*z=ConstantInt::get(T,0);
        Value*ns=bin(B,OP_SUB,width(T),z,B.getInt32(0),opnd(0),sh(opnd(0)));
        Value*sc=bin(B,OP_SLT,width(T),opnd(0),sh(opnd(0)),z,B.getInt32(0));
        S[I]=ite(B,width(T),B.CreateICmpSLT(opnd(0),z),sc,B.CreateSub(z,opnd(0)),ns,opnd(0),sh(opnd(0))); return; }
      case Intrinsic::fabs:{
        if(!T->isDoubleTy()){ fallback(I,"intr"); return; }
        IRBuilder<> B(I->getNextNode());
        S[I]=bin(B,OP_AND,64,opnd(0),sh(opnd(0)),B.getInt64(0x7fffffffffffffffULL),B.getInt32(0)); return; }
      default:
        fallback(I,std::string("intrinsic ")+II->getCalledFunction()->getName().str());
    }
  }
};

struct SymPass: PassInfoMixin<SymPass>{
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){ Sym s(M); s.run(); return PreservedAnalyses::none(); }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"sym","1",[](PassBuilder&PB){
    PB.registerPipelineParsingCallback([](StringRef n,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){
      if(n=="symexec"){MPM.addPass(SymPass());return true;} return false;});
  }};
}
