// ---- decoding of LLVM functions into Inst arrays (member of Exec)
static unsigned bitsOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void flatten(Type*t,uint64_t off,std::vector<std::array<unsigned,3>>&out){
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatten(s->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) flatten(a->getElementType(),off+i*es,out); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeStoreSize(v->getElementType()); for(uint64_t i=0;i<v->getNumElements();i++) flatten(v->getElementType(),off+i*es,out); return; }
  if(t->isVoidTy()) return;
  unsigned b=bitsOf(t); out.push_back({(unsigned)off,(unsigned)DL->getTypeStoreSize(t).getFixedValue(),b}); }
static unsigned slotsOf(Type*t){ std::vector<std::array<unsigned,3>> o; flatten(t,0,o); return o.size(); }
static unsigned slotIndex(Type*t,ArrayRef<unsigned> idx){ unsigned n=0; for(unsigned i:idx){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) n+=slotsOf(s->getElementType(k)); t=s->getElementType(i);} else { auto*a=cast<ArrayType>(t); n+=i*slotsOf(a->getElementType()); t=a->getElementType(); } } return n; }
void flatConst(const Constant*c,std::vector<SV>&out){
  Type*t=c->getType();
  if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ unsigned n = t->isStructTy()? t->getStructNumElements(): t->isArrayTy()? t->getArrayNumElements(): cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++){ Constant*e=c->getAggregateElement(i); flatConst(e,out);} return; }
  out.push_back(C(constVal(c))); }

static int builtinOf(const std::string&n){
  static const std::map<std::string,int> m={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},
   {"__assert_fail",B_ASSERTFAIL},{"abort",B_ABORT},{"sx_bytes",B_BYTES},{"sx_var",B_VAR},{"sx_choose",B_CHOOSE},{"sx_assume",B_ASSUME},{"sx_assert_",B_ASSERT},{"sx_cover",B_COVER},{"sx_obs",B_OBS},{"sx_concretize",B_CONC},
   {"sx_heap_live",B_HEAPLIVE},{"sx_heap_bytes",B_HEAPBYTES},{"sx_spawn",B_SPAWN},{"sx_join",B_JOIN},{"sx_sched",B_SCHED},{"sx_yield",B_YIELD},{"sx_end",B_END},{"sx_symbolic_mode",B_SYMMODE},{"sx_is_symbolic",B_ISSYM},{"sx_dump",B_DUMP},{"sx_fail",B_FAIL},{"sx_self",B_SELF},{"sx_is_alive",B_ISALIVE},
   {"llvm.trap",B_TRAP},{"llvm.stacksave.p0",B_STACKSAVE},{"llvm.stackrestore.p0",B_IGNORE}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  auto sw=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(sw("llvm.memcpy")) return B_MEMCPY; if(sw("llvm.memmove")) return B_MEMMOVE; if(sw("llvm.memset")) return B_MEMSET;
  if(sw("llvm.lifetime")||sw("llvm.dbg")||sw("llvm.assume")||sw("llvm.experimental.noalias")||sw("llvm.donothing")||sw("llvm.prefetch")) return B_IGNORE;
  if(sw("llvm.x86.sse2.pause")) return B_YIELD;
  if(sw("llvm.bswap")) return B_BSWAP; if(sw("llvm.ctlz")) return B_CTLZ; if(sw("llvm.cttz")) return B_CTTZ; if(sw("llvm.ctpop")) return B_CTPOP;
  if(sw("llvm.umax")) return B_UMAX; if(sw("llvm.umin")) return B_UMIN; if(sw("llvm.smax")) return B_SMAX; if(sw("llvm.smin")) return B_SMIN; if(sw("llvm.abs")) return B_ABS;
  if(sw("llvm.uadd.with")) return B_ADDOVF; if(sw("llvm.sadd.with")) return B_ADDOVF+1000; if(sw("llvm.usub.with")) return B_SUBOVF; if(sw("llvm.ssub.with")) return B_SUBOVF+1000; if(sw("llvm.umul.with")) return B_MULOVF; if(sw("llvm.smul.with")) return B_MULOVF+1000;
  if(sw("llvm.expect")) return B_EXPECT; if(sw("llvm.va_start")) return B_VASTART; if(sw("llvm.va_end")) return B_VAEND; if(sw("llvm.va_copy")) return B_VACOPY; if(sw("llvm.fabs")) return B_FABS; if(sw("llvm.fmuladd")) return B_FMULADD; if(sw("llvm.floor")) return B_FLOOR; if(sw("llvm.ceil")) return B_CEIL;
  if(sw("llvm.threadlocal.address")) return B_TLADDR; if(sw("llvm.usub.sat")) return B_USUBSAT; if(sw("llvm.uadd.sat")) return B_UADDSAT; if(sw("llvm.sadd.sat")) return B_UADDSAT+1000; if(sw("llvm.ssub.sat")) return B_USUBSAT+1000; if(sw("llvm.fshl")) return B_FSHL; if(sw("llvm.fshr")) return B_FSHR; if(sw("llvm.objectsize")) return B_OBJSIZE; if(sw("llvm.is.constant")) return B_ISCONST;
  return B_UNKNOWN; }

std::map<const Value*,int> vslot; // per function under decoding
Opnd opn(const Value*v){
  if(auto*c=dyn_cast<Constant>(v)){ Opnd o; o.slot=-1; o.agg=nullptr; o.k=C(0); Type*t=v->getType(); if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ o.agg=new std::vector<SV>(); flatConst(c,*o.agg);} else if(!t->isMetadataTy()&&!t->isLabelTy()) o.k=C(constVal(c)); return o; }
  auto it=vslot.find(v); Opnd o; o.agg=nullptr; o.k=C(0); o.slot= it==vslot.end()? -1: it->second; return o; }

void decode(Func*fn){
  fn->decoded=true; const Function&F=*fn->f; vslot.clear(); unsigned nr=0;
  for(auto&a:F.args()){ vslot[&a]=nr; fn->args.push_back(nr); nr+=std::max(1u,slotsOf(a.getType())); }
  for(auto&b:F) for(auto&i:b) if(!i.getType()->isVoidTy()){ vslot[&i]=nr; nr+=std::max(1u,slotsOf(i.getType())); }
  fn->nregs=nr; std::map<const BasicBlock*,int> bi; int k=0; for(auto&b:F) bi[&b]=k++;
  for(auto&b:F){ fn->blocks.push_back(fn->code.size());
    for(auto&i:b){
      if(isa<DbgInfoIntrinsic>(i)) continue;
      Inst n; n.op=i.getOpcode(); n.sub=0; n.w=bitsOf(i.getType()); n.w2=0; n.dst=i.getType()->isVoidTy()?-1:vslot[&i]; n.nslots=slotsOf(i.getType()); n.t1=n.t2=-1; n.callee=nullptr; n.builtin=B_NONE; n.isVoid=i.getType()->isVoidTy(); n.ord=0; n.src=&i; n.hits=0; n.gepOff=0;
      switch(i.getOpcode()){
        case Instruction::Br: { auto&br=cast<BranchInst>(i); if(br.isConditional()){ n.o.push_back(opn(br.getCondition())); n.t1=bi[br.getSuccessor(0)]; n.t2=bi[br.getSuccessor(1)]; } else n.t1=bi[br.getSuccessor(0)]; break; }
        case Instruction::Switch: { auto&sw=cast<SwitchInst>(i); n.o.push_back(opn(sw.getCondition())); n.w2=bitsOf(sw.getCondition()->getType()); n.t1=bi[sw.getDefaultDest()]; for(auto c:sw.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(),bi[c.getCaseSuccessor()]}); break; }
        case Instruction::PHI: { auto&p=cast<PHINode>(i); for(unsigned q=0;q<p.getNumIncomingValues();q++){ n.cases.push_back({(uint64_t)bi[p.getIncomingBlock(q)],(int)n.o.size()}); n.o.push_back(opn(p.getIncomingValue(q))); } break; }
        case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(i); n.o.push_back(opn(g.getPointerOperand())); 
          if(i.getType()->isVectorTy()) n.op=9999;
          else for(auto gi=gep_type_begin(g);gi!=gep_type_end(g);++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ n.gepOff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sc=gi.getSequentialElementStride(*DL); if(auto*ci=dyn_cast<ConstantInt>(ix)) n.gepOff+=ci->getSExtValue()*sc; else { n.gep.push_back({sc,(int)n.o.size()}); n.cases.push_back({bitsOf(ix->getType()),0}); n.o.push_back(opn(ix)); } } }
          break; }
        case Instruction::Load: { auto&l=cast<LoadInst>(i); n.o.push_back(opn(l.getPointerOperand())); flatten(i.getType(),0,n.lay); n.ord= l.isAtomic()? (int)l.getOrdering()+1:0; break; }
        case Instruction::Store: { auto&l=cast<StoreInst>(i); n.o.push_back(opn(l.getPointerOperand())); n.o.push_back(opn(l.getValueOperand())); flatten(l.getValueOperand()->getType(),0,n.lay); n.ord= l.isAtomic()? (int)l.getOrdering()+1:0; break; }
        case Instruction::Alloca: { auto&a=cast<AllocaInst>(i); n.gepOff=DL->getTypeAllocSize(a.getAllocatedType()); n.o.push_back(opn(a.getArraySize())); break; }
        case Instruction::ICmp: { auto&c=cast<ICmpInst>(i); n.sub=c.getPredicate(); Type*ot=c.getOperand(0)->getType(); if(ot->isVectorTy()) ot=cast<VectorType>(ot)->getElementType(); n.w2=bitsOf(ot); n.w=1; n.o.push_back(opn(c.getOperand(0))); n.o.push_back(opn(c.getOperand(1))); break; }
        case Instruction::FCmp: { auto&c=cast<FCmpInst>(i); n.sub=c.getPredicate(); n.w2=bitsOf(c.getOperand(0)->getType()); n.w=1; n.o.push_back(opn(c.getOperand(0))); n.o.push_back(opn(c.getOperand(1))); break; }
        case Instruction::ExtractValue: { auto&e=cast<ExtractValueInst>(i); n.o.push_back(opn(e.getAggregateOperand())); n.t1=slotIndex(e.getAggregateOperand()->getType(),e.getIndices()); break; }
        case Instruction::InsertValue: { auto&e=cast<InsertValueInst>(i); n.o.push_back(opn(e.getAggregateOperand())); n.o.push_back(opn(e.getInsertedValueOperand())); n.t1=slotIndex(e.getAggregateOperand()->getType(),e.getIndices()); n.t2=slotsOf(e.getInsertedValueOperand()->getType()); break; }
        case Instruction::AtomicCmpXchg: { auto&a=cast<AtomicCmpXchgInst>(i); n.o.push_back(opn(a.getPointerOperand())); n.o.push_back(opn(a.getCompareOperand())); n.o.push_back(opn(a.getNewValOperand())); n.w2=bitsOf(a.getCompareOperand()->getType()); n.ord=(int)a.getSuccessOrdering()+1; n.t1=(int)a.getFailureOrdering()+1; break; }
        case Instruction::AtomicRMW: { auto&a=cast<AtomicRMWInst>(i); n.o.push_back(opn(a.getPointerOperand())); n.o.push_back(opn(a.getValOperand())); n.sub=a.getOperation(); n.ord=(int)a.getOrdering()+1; break; }
        case Instruction::Call: { auto&c=cast<CallInst>(i); 
          for(unsigned q=0;q<c.arg_size();q++){ Value*av=c.getArgOperand(q); n.o.push_back(opn(av)); n.cases.push_back({bitsOf(av->getType()),(int)slotsOf(av->getType())}); }
          if(c.isInlineAsm()){ auto*ia=cast<InlineAsm>(c.getCalledOperand()); n.builtin = ia->getAsmString().empty()? B_IGNORE : (ia->getAsmString().find("pause")!=std::string::npos||ia->getAsmString().find("yield")!=std::string::npos)? B_YIELD : B_UNKNOWN; }
          else { Value*cv=c.getCalledOperand()->stripPointerCasts(); if(auto*a=dyn_cast<GlobalAlias>(cv)) cv=a->getAliasee()->stripPointerCasts();
            if(auto*cf=dyn_cast<Function>(cv)){ n.callee=funcs[cf]; 
              int b=builtinOf(cf->getName().str()); 
              if(cf->isDeclaration()) n.builtin=b; else if (b>=B_MALLOC&&b<=B_BCMP) n.builtin=b; }
            else { n.callee=nullptr; n.t1=n.o.size(); n.o.push_back(opn(c.getCalledOperand())); } }
          n.t2=c.arg_size(); if(c.arg_size()>0) n.w2=bitsOf(c.getArgOperand(0)->getType()); break; }
        case Instruction::Ret: { if(i.getNumOperands()) { n.o.push_back(opn(i.getOperand(0))); n.nslots=slotsOf(i.getOperand(0)->getType()); } else n.nslots=0; break; }
        case Instruction::ShuffleVector: { auto&s=cast<ShuffleVectorInst>(i); n.o.push_back(opn(s.getOperand(0))); n.o.push_back(opn(s.getOperand(1))); n.t1=slotsOf(s.getOperand(0)->getType()); for(int m:s.getShuffleMask()) n.cases.push_back({(uint64_t)0,m}); break; }
        case Instruction::InsertElement: case Instruction::ExtractElement: { for(auto&op:i.operands()) n.o.push_back(opn(op)); if(i.getOpcode()==Instruction::ExtractElement) n.t1=slotsOf(i.getOperand(0)->getType()); break; }
        default: { for(auto&op:i.operands()) n.o.push_back(opn(op)); if(i.getNumOperands()) { Type*ot=i.getOperand(0)->getType(); if(ot->isVectorTy()) ot=cast<VectorType>(ot)->getElementType(); n.w2=bitsOf(ot);} 
          if(auto*vt=dyn_cast<VectorType>(i.getType())) n.w=bitsOf(vt->getElementType()); 
          if(i.getOpcode()==Instruction::Select) n.w2=isa<VectorType>(i.getOperand(0)->getType()); } }
      fn->code.push_back(std::move(n)); } } }
