// SymPass: LLVM (new pass manager) plugin that turns the compiler's IR of the
// real Bonmin sources into a program that carries, next to every SSA value and
// every byte of memory, a handle on a symbolic expression (0 = concrete).
// All semantics of expressions, path constraints and the SMT queries live in
// the runtime (SymRuntime.cpp).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
enum { MAXARG = 32 };
struct Inst {
  Module &M; LLVMContext &C;
  Type *I1,*I8,*I32,*I64,*DBL,*VOID; PointerType *PTR;
  FunctionCallee fBin,fCmp,fCast,fSel,fBr,fSw,fLoad,fStore,fMemcpy,fMemset,fClear,fConc,fConcMem,fPre,fMath,fReg,fExt,fEnter;
  GlobalVariable *gArgs,*gCallee,*gRet,*gRetFn;
  Constant *Z;
  Inst(Module &M):M(M),C(M.getContext()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);DBL=Type::getDoubleTy(C);VOID=Type::getVoidTy(C);PTR=PointerType::getUnqual(C);
    Z=ConstantInt::get(I32,0);
    auto f=[&](const char*n,Type*r,std::vector<Type*> a){return M.getOrInsertFunction(n,FunctionType::get(r,a,false));};
    fBin=f("__sym_bin",I32,{I32,I32,I32,I64,I32,I64,I64});
    fCmp=f("__sym_cmp",I32,{I32,I32,I32,I64,I32,I64,I32});
    fCast=f("__sym_cast",I32,{I32,I32,I32,I32,I64,I64});
    fSel=f("__sym_select",I32,{I32,I32,I32,I64,I32,I64,I32,I64});
    fBr=f("__sym_branch",VOID,{I32,I32}); fEnter=f("__sym_enter",VOID,{PTR});
    fSw=f("__sym_switch",VOID,{I32,I64,I32,I32,PTR});
    fLoad=f("__sym_load",I32,{PTR,I32,I64});
    fStore=f("__sym_store",VOID,{PTR,I32,I32,I64});
    fMemcpy=f("__sym_memcpy",VOID,{PTR,PTR,I64});
    fMemset=f("__sym_memset",VOID,{PTR,I64});
    fClear=f("__sym_clear",VOID,{PTR,I64});
    fConc=f("__sym_conc",VOID,{I32,I64,I32});
    fConcMem=f("__sym_conc_mem",VOID,{PTR,I64});
    fPre=f("__sym_precall",VOID,{PTR,I32,PTR});
    fMath=f("__sym_math",I32,{I32,I32,I32,I64,I32,I64,I64});
    fReg=f("__sym_register",VOID,{PTR,I64});
    fExt=M.getOrInsertFunction("__sym_ext",FunctionType::get(VOID,{PTR,PTR,I32},true));
    auto g=[&](const char*n,Type*t){auto*G=cast<GlobalVariable>(M.getOrInsertGlobal(n,t));G->setLinkage(GlobalValue::ExternalLinkage);return G;};
    gArgs=g("__sym_args",ArrayType::get(I32,MAXARG));gCallee=g("__sym_callee",PTR);gRet=g("__sym_ret",I32);gRetFn=g("__sym_retfn",PTR);
  }
  // width code: bits for ints; 64|0x100 for double; 0 unsupported
  static int wcode(Type*T){
    if(T->isIntegerTy()){unsigned b=T->getIntegerBitWidth();return b<=64?(int)b:0;}
    if(T->isDoubleTy())return 0x140;
    return 0;
  }
  Value* as64(IRBuilder<>&B,Value*V){
    Type*T=V->getType();
    if(T->isIntegerTy()){unsigned b=T->getIntegerBitWidth();if(b==64)return V;if(b<64)return B.CreateZExt(V,I64);return B.CreateTrunc(V,I64);}
    if(T->isDoubleTy())return B.CreateBitCast(V,I64);
    return ConstantInt::get(I64,0);
  }
  DenseMap<Value*,Value*> sh;
  Value* S(Value*V){ if(isa<Constant>(V)||isa<MetadataAsValue>(V)||isa<BasicBlock>(V)||isa<InlineAsm>(V))return Z; auto it=sh.find(V); return it==sh.end()?Z:it->second; }
  bool z(Value*s){return s==Z;}
  Constant* c32(int v){return ConstantInt::get(I32,v);}
  void conc(IRBuilder<>&B,Value*V){ Value*s=S(V); if(z(s))return; int w=wcode(V->getType()); if(!w)return; B.CreateCall(fConc,{s,as64(B,V),c32(w)}); }

  int mathCode(StringRef n){
    static const std::map<std::string,int> m={{"fabs",1},{"floor",2},{"ceil",3},{"fmin",4},{"fmax",5},{"sqrt",6},{"smin",7},{"smax",8},{"umin",9},{"umax",10},{"abs",11},{"round",12},{"rint",13},{"nearbyint",13},{"copysign",14},{"trunc",15}};
    auto it=m.find(n.str()); return it==m.end()?0:it->second;
  }
  bool runOnFunction(Function&F){
    sh.clear();
    std::vector<Instruction*> insts; std::vector<PHINode*> phis;
    // split: collect original instructions in dominance-compatible order
    ReversePostOrderTraversal<Function*> *rpo=nullptr; (void)rpo;
    std::vector<BasicBlock*> order; { std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*,succ_iterator>> st;
      std::vector<BasicBlock*> post; BasicBlock*E=&F.getEntryBlock(); seen.insert(E); st.push_back({E,succ_begin(E)});
      while(!st.empty()){auto&t=st.back(); if(t.second==succ_end(t.first)){post.push_back(t.first);st.pop_back();}else{BasicBlock*n=*t.second;++t.second; if(seen.insert(n).second)st.push_back({n,succ_begin(n)});}}
      order.assign(post.rbegin(),post.rend()); }
    for(auto*BB:order)for(auto&I:*BB){ insts.push_back(&I); if(auto*P=dyn_cast<PHINode>(&I))phis.push_back(P); }
    // entry: argument shadows
    {
      Instruction*ip=&*F.getEntryBlock().getFirstInsertionPt();
      while(isa<AllocaInst>(ip))ip=ip->getNextNode();
      IRBuilder<> B(ip);
      bool any=false; for(auto&A:F.args()) if(wcode(A.getType())&&A.getArgNo()<MAXARG) any=true;
      if(any){
        Value*ok=B.CreateICmpEQ(B.CreateLoad(PTR,gCallee),&F);
        for(auto&A:F.args()) if(wcode(A.getType())&&A.getArgNo()<MAXARG){
          Value*p=B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,A.getArgNo());
          sh[&A]=B.CreateSelect(ok,B.CreateLoad(I32,p),Z);
        }
        B.CreateStore(ConstantPointerNull::get(PTR),gCallee);
      }
    }
    for(auto*P:phis) if(wcode(P->getType())){ IRBuilder<> B(P); auto*q=B.CreatePHI(I32,P->getNumIncomingValues()); sh[P]=q; }
    for(auto*I:insts) visit(F,I);
    for(auto*P:phis){ auto it=sh.find(P); if(it==sh.end())continue; auto*q=cast<PHINode>(it->second); for(unsigned i=0;i<P->getNumIncomingValues();i++) q->addIncoming(S(P->getIncomingValue(i)),P->getIncomingBlock(i)); }
    return true;
  }
  static Instruction* after(Instruction*I){ return I->getNextNode(); }
  void visit(Function&F,Instruction*I){
    int w=wcode(I->getType());
    switch(I->getOpcode()){
    case Instruction::PHI: return;
    case Instruction::Alloca:{ auto*A=cast<AllocaInst>(I); auto sz=A->getAllocationSize(M.getDataLayout()); Instruction*ip=after(I); while(isa<AllocaInst>(ip))ip=ip->getNextNode(); if(A->isStaticAlloca()){ip=after(I);} IRBuilder<>B(ip); if(sz&&!sz->isScalable()) B.CreateCall(fClear,{A,ConstantInt::get(I64,sz->getFixedValue())}); else { Value*n=B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(),I64),ConstantInt::get(I64,M.getDataLayout().getTypeAllocSize(A->getAllocatedType()))); B.CreateCall(fClear,{A,n}); } return; }
    case Instruction::Load:{ auto*L=cast<LoadInst>(I); uint64_t n=M.getDataLayout().getTypeStoreSize(I->getType()); if(I->getType()->isPointerTy())return; IRBuilder<>B(after(I)); if(w) sh[I]=B.CreateCall(fLoad,{L->getPointerOperand(),c32((int)n),as64(B,I)}); else B.CreateCall(fConcMem,{L->getPointerOperand(),ConstantInt::get(I64,n)}); return; }
    case Instruction::Store:{ auto*St=cast<StoreInst>(I); Value*V=St->getValueOperand(); uint64_t n=M.getDataLayout().getTypeStoreSize(V->getType()); IRBuilder<>B(I); if(wcode(V->getType())) B.CreateCall(fStore,{St->getPointerOperand(),c32((int)n),S(V),as64(B,V)}); else B.CreateCall(fClear,{St->getPointerOperand(),ConstantInt::get(I64,n)}); return; }
    case Instruction::AtomicCmpXchg: case Instruction::AtomicRMW:{ Value*p=I->getOperand(0); IRBuilder<>B(I); B.CreateCall(fConcMem,{p,ConstantInt::get(I64,8)}); return; }
    case Instruction::GetElementPtr:{ IRBuilder<>B(I); for(unsigned i=1;i<I->getNumOperands();i++) conc(B,I->getOperand(i)); return; }
    case Instruction::ICmp:{ auto*Cm=cast<ICmpInst>(I); Value*a=I->getOperand(0),*b=I->getOperand(1); int ow=wcode(a->getType()); if(!ow||(z(S(a))&&z(S(b))))return; IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fCmp,{c32(Cm->getPredicate()),c32(ow),S(a),as64(B,a),S(b),as64(B,b),B.CreateZExt(I,I32)}); return; }
    case Instruction::FCmp:{ auto*Cm=cast<FCmpInst>(I); Value*a=I->getOperand(0),*b=I->getOperand(1); int ow=wcode(a->getType()); if(!ow||(z(S(a))&&z(S(b))))return; IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fCmp,{c32(Cm->getPredicate()),c32(ow),S(a),as64(B,a),S(b),as64(B,b),B.CreateZExt(I,I32)}); return; }
    case Instruction::Select:{ auto*Se=cast<SelectInst>(I); Value*c=Se->getCondition(),*a=Se->getTrueValue(),*b=Se->getFalseValue(); if(!c->getType()->isIntegerTy(1))return; 
      if(!w){ if(!z(S(c))){IRBuilder<>B(I); B.CreateCall(fBr,{S(c),B.CreateZExt(c,I32)});} return; }
      if(z(S(a))&&z(S(b))&&z(S(c)))return; IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fSel,{S(c),B.CreateZExt(c,I32),S(a),as64(B,a),S(b),as64(B,b),c32(w),as64(B,I)}); return; }
    case Instruction::Freeze: { if(w) sh[I]=S(I->getOperand(0)); return; }
    case Instruction::FNeg: { Value*a=I->getOperand(0); if(!w||z(S(a)))return; IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fBin,{c32(Instruction::FNeg),c32(w),S(a),as64(B,a),Z,ConstantInt::get(I64,0),as64(B,I)}); return; }
    case Instruction::Br:{ auto*Br=cast<BranchInst>(I); if(!Br->isConditional())return; Value*c=Br->getCondition(); if(z(S(c)))return; IRBuilder<>B(I); B.CreateCall(fBr,{S(c),B.CreateZExt(c,I32)}); return; }
    case Instruction::Switch:{ auto*Sw=cast<SwitchInst>(I); Value*c=Sw->getCondition(); if(z(S(c)))return; IRBuilder<>B(I); std::vector<Constant*> cs; for(auto&k:Sw->cases()) cs.push_back(ConstantInt::get(I64,k.getCaseValue()->getZExtValue())); auto*AT=ArrayType::get(I64,cs.size()); auto*G=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,cs)); B.CreateCall(fSw,{S(c),as64(B,c),c32(wcode(c->getType())),c32((int)cs.size()),G}); return; }
    case Instruction::Ret:{ auto*R=cast<ReturnInst>(I); Value*V=R->getReturnValue(); if(!V||!wcode(V->getType()))return; if(auto*pc=dyn_cast_or_null<CallInst>(I->getPrevNode())) if(pc->isMustTailCall())return; IRBuilder<>B(I); B.CreateStore(S(V),gRet); B.CreateStore(&F,gRetFn); return; }
    case Instruction::Call: case Instruction::Invoke: visitCall(F,cast<CallBase>(I)); return;
    case Instruction::ExtractValue: case Instruction::LandingPad: case Instruction::Unreachable: case Instruction::Resume: return;
    default: break;
    }
    if(I->isBinaryOp()){ Value*a=I->getOperand(0),*b=I->getOperand(1); if(!w){return;} if(z(S(a))&&z(S(b)))return; IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fBin,{c32(I->getOpcode()),c32(w),S(a),as64(B,a),S(b),as64(B,b),as64(B,I)}); return; }
    if(I->isCast()){ Value*a=I->getOperand(0); if(z(S(a)))return; int sw=wcode(a->getType()); if(!w||!sw){ IRBuilder<>B(I); conc(B,a); return; } IRBuilder<>B(after(I)); sh[I]=B.CreateCall(fCast,{c32(I->getOpcode()),c32(sw),c32(w),S(a),as64(B,a),as64(B,I)}); return; }
    // anything else: operands must be concrete
    { IRBuilder<>B(I); for(auto&op:I->operands()) conc(B,op.get()); }
  }
  Instruction* afterCall(CallBase*CB){
    if(auto*Inv=dyn_cast<InvokeInst>(CB)){
      BasicBlock*N=Inv->getNormalDest();
      if(!N->getSinglePredecessor()){ BasicBlock*NB=BasicBlock::Create(C,"symedge",N->getParent(),N); BranchInst::Create(N,NB); Inv->setNormalDest(NB); N->replacePhiUsesWith(Inv->getParent(),NB); N=NB; }
      return &*N->getFirstInsertionPt();
    }
    return CB->getNextNode();
  }
  void visitCall(Function&F,CallBase*CB){
    if(CB->isInlineAsm())return;
    int w=wcode(CB->getType());
    Function*callee=CB->getCalledFunction();
    if(callee&&callee->isIntrinsic()){
      Intrinsic::ID id=callee->getIntrinsicID();
      switch(id){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ IRBuilder<>B(CB); conc(B,CB->getArgOperand(2)); B.CreateCall(fMemcpy,{CB->getArgOperand(0),CB->getArgOperand(1),B.CreateZExtOrTrunc(CB->getArgOperand(2),I64)}); return; }
      case Intrinsic::memset:{ IRBuilder<>B(CB); conc(B,CB->getArgOperand(1)); conc(B,CB->getArgOperand(2)); B.CreateCall(fMemset,{CB->getArgOperand(0),B.CreateZExtOrTrunc(CB->getArgOperand(2),I64)}); return; }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::trap: return;
      case Intrinsic::expect: sh[CB]=S(CB->getArgOperand(0)); return;
      default:{
        StringRef n=callee->getName(); // llvm.NAME.type
        n.consume_front("llvm."); StringRef base=n.split('.').first;
        int mc=0;
        if(base=="fabs")mc=1; else if(base=="floor")mc=2; else if(base=="ceil")mc=3; else if(base=="minnum"||base=="minimum")mc=4; else if(base=="maxnum"||base=="maximum")mc=5; else if(base=="sqrt")mc=6; else if(base=="smin")mc=7; else if(base=="smax")mc=8; else if(base=="umin")mc=9; else if(base=="umax")mc=10; else if(base=="abs")mc=11; else if(base=="round")mc=12; else if(base=="rint"||base=="nearbyint")mc=13; else if(base=="copysign")mc=14; else if(base=="trunc")mc=15; else if(base=="is")mc=16; else if(base=="fmuladd"||base=="fma")mc=0;
        bool any=false; for(auto&a:CB->args()) if(!z(S(a.get())))any=true;
        if(!any)return;
        if(mc&&wcode(CB->getArgOperand(0)->getType())&&w){
          Value*a=CB->getArgOperand(0); Value*b=(CB->arg_size()>1&&mc!=11&&mc!=16)?CB->getArgOperand(1):nullptr;
          IRBuilder<>B(after(CB));
          Value*bv = mc==16? B.CreateZExt(CB->getArgOperand(1),I64) : (b?as64(B,b):ConstantInt::get(I64,0));
          sh[CB]=B.CreateCall(fMath,{c32(mc),c32(wcode(a->getType())),S(a),as64(B,a),b?S(b):Z,bv,as64(B,CB)});
          return;
        }
        IRBuilder<>B(CB); for(auto&a:CB->args()) conc(B,a.get());
        return; }
      }
    }
    StringRef nm=callee?callee->getName():"";
    if(nm.starts_with("__sym_"))return;
    if(callee&&callee->isDeclaration()){
      int mc=mathCode(nm);
      if(mc&&mc!=11&&w==0x140){ bool any=false; for(auto&a:CB->args()) if(!z(S(a.get())))any=true; if(!any)return; Value*a=CB->getArgOperand(0); Value*b=CB->arg_size()>1?CB->getArgOperand(1):nullptr; IRBuilder<>B(afterCall(CB)); sh[CB]=B.CreateCall(fMath,{c32(mc),c32(0x140),S(a),as64(B,a),b?S(b):Z,b?as64(B,b):ConstantInt::get(I64,0),as64(B,CB)}); return; }
      if(nm=="memcpy"||nm=="memmove"){ IRBuilder<>B(CB); conc(B,CB->getArgOperand(2)); B.CreateCall(fMemcpy,{CB->getArgOperand(0),CB->getArgOperand(1),CB->getArgOperand(2)}); return; }
      if(nm=="memset"){ IRBuilder<>B(CB); conc(B,CB->getArgOperand(1)); conc(B,CB->getArgOperand(2)); B.CreateCall(fMemset,{CB->getArgOperand(0),CB->getArgOperand(2)}); return; }
    }
    if(!callee||callee->isDeclaration()){ // memory with symbolic content handed to code that is not encoded
      std::vector<Value*> a{CB->getCalledOperand(),callee?(Value*)nameStr(nm):(Value*)ConstantPointerNull::get(PTR),nullptr}; for(auto&x:CB->args()) if(x->getType()->isPointerTy()&&!isa<Constant>(x.get())&&a.size()<11) a.push_back(x.get());
      if(a.size()>3){ a[2]=c32((int)a.size()-3); IRBuilder<>B(CB); B.CreateCall(fExt,a); } }
    bool any=false; unsigned n=std::min<unsigned>(CB->arg_size(),MAXARG);
    for(unsigned i=0;i<n;i++) if(!z(S(CB->getArgOperand(i))))any=true;
    Value*cv=CB->getCalledOperand();
    {
      IRBuilder<>B(CB);
      for(unsigned i=0;i<CB->arg_size();i++) if(CB->isByValArgument(i)){ Type*T=CB->getParamByValType(i); B.CreateCall(fConcMem,{CB->getArgOperand(i),ConstantInt::get(I64,M.getDataLayout().getTypeAllocSize(T))}); }
      if(any){
        for(unsigned i=0;i<n;i++) B.CreateStore(S(CB->getArgOperand(i)),B.CreateConstInBoundsGEP2_32(gArgs->getValueType(),gArgs,0,i));
        B.CreateStore(cv,gCallee);
        B.CreateCall(fPre,{cv,c32((int)n),callee?(Constant*)nameStr(nm):(Constant*)ConstantPointerNull::get(PTR)});
        // concrete values of args for concretisation are read from a side array
      }
    }
    if(any){ // store concrete values for the runtime
      Instruction*pre=CB->getPrevNode(); IRBuilder<>B(pre);
      auto*G=cast<GlobalVariable>(M.getOrInsertGlobal("__sym_argv",ArrayType::get(I64,MAXARG)));
      auto*W=cast<GlobalVariable>(M.getOrInsertGlobal("__sym_argw",ArrayType::get(I32,MAXARG)));
      for(unsigned i=0;i<n;i++){ Value*a=CB->getArgOperand(i); if(z(S(a)))continue; B.CreateStore(as64(B,a),B.CreateConstInBoundsGEP2_32(G->getValueType(),G,0,i)); B.CreateStore(c32(wcode(a->getType())),B.CreateConstInBoundsGEP2_32(W->getValueType(),W,0,i)); }
    }
    if(w&&!CB->use_empty()){
      if(auto*CI=dyn_cast<CallInst>(CB)) if(CI->isMustTailCall())return;
      IRBuilder<>B(afterCall(CB));
      Value*ok=B.CreateICmpEQ(B.CreateLoad(PTR,gRetFn),cv);
      sh[CB]=B.CreateSelect(ok,B.CreateLoad(I32,gRet),Z);
      B.CreateStore(ConstantPointerNull::get(PTR),gRetFn);
    }
  }
  std::map<std::string,Constant*> strs;
  Constant* nameStr(StringRef s){ auto&c=strs[s.str()]; if(c)return c; auto*d=ConstantDataArray::getString(C,s); auto*G=new GlobalVariable(M,d->getType(),true,GlobalValue::PrivateLinkage,d); c=G; return c; }
  void run(){
    std::vector<Function*> fs; for(auto&F:M) if(!F.isDeclaration()&&!F.getName().starts_with("__sym_")&&!F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for(auto*F:fs){ F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync); runOnFunction(*F); if(F->getName().contains("6Bonmin")){ IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt()); B.CreateCall(fEnter,{F}); } }
    // calls may carry readnone/memory attributes which would let codegen drop shadow traffic
    for(auto&F:M) { if(F.isIntrinsic())continue; F.removeFnAttr(Attribute::Memory); for(auto&I:instructions(F)) if(auto*CB=dyn_cast<CallBase>(&I)) if(!CB->getCalledFunction()||!CB->getCalledFunction()->isIntrinsic()) CB->removeFnAttr(Attribute::Memory); }
    // registry of instrumented functions
    if(!fs.empty()){
      std::vector<Constant*> e; auto*ST=StructType::get(C,{PTR,PTR});
      for(auto*F:fs) e.push_back(ConstantStruct::get(ST,{F,nameStr(F->getName())}));
      auto*AT=ArrayType::get(ST,e.size()); auto*G=new GlobalVariable(M,AT,true,GlobalValue::InternalLinkage,ConstantArray::get(AT,e),"__sym_functable");
      auto*ctor=Function::Create(FunctionType::get(VOID,false),GlobalValue::InternalLinkage,"__sym_modctor",&M);
      IRBuilder<>B(BasicBlock::Create(C,"e",ctor)); B.CreateCall(fReg,{G,ConstantInt::get(I64,e.size())}); B.CreateRetVoid();
      appendToGlobalCtors(M,ctor,0);
    }
  }
};
struct SymPass:PassInfoMixin<SymPass>{
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){ Inst(M).run(); return PreservedAnalyses::none(); }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"SymPass","1",[](PassBuilder&PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){MPM.addPass(SymPass());});
  }};
}
