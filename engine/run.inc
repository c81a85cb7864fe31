// ---- interpreter loop (member of Exec)
inline SV get(const Opnd&o,unsigned k=0){ if(o.slot>=0) return T->regs[curBase+o.slot+k]; if(o.agg) return k<o.agg->size()?(*o.agg)[k]:C(0); return o.k; }
uint32_t curBase;
inline void set(int d,const SV&v){ T->regs[curBase+d]=v; }

Obj *stackAlloc(uint64_t n){ uint64_t base=(T->stk+31)&~15ull; T->stk=base+n+16; Obj*o=newObj(base,n,1,"stack"); o->un.assign(n,1); objs[base]=o; T->fr.back().allocas.push_back(o); return o; }

void pushFrame(Func*fn,const std::vector<SV>&args,const Inst*call,const std::vector<SV>*extra){
  if(!fn->decoded) decode(fn); fn->entered=true;
  if(T->fr.size()>400) unsupported("call depth");
  Frame f; f.f=fn; f.pc=0; f.prevBB=-1; f.base=T->regs.size(); f.call=call; f.va=0; f.sp=T->stk;
  T->regs.resize(f.base+fn->nregs,C(0));
  for(size_t i=0;i<args.size()&&i<fn->args.size();i++) T->regs[f.base+fn->args[i]]=args[i];
  T->fr.push_back(std::move(f)); curBase=T->fr.back().base;
  if(extra){ Obj*o=stackAlloc(extra->size()*8+8); std::fill(o->un.begin(),o->un.end(),0); for(size_t i=0;i<extra->size();i++) writeAt(o,i*8,8,64,(*extra)[i]); T->fr.back().va=o->base; }
}
void popFrame(const Inst&ret){
  Frame&f=T->fr.back(); const Inst*call=f.call; std::vector<SV> rv; for(unsigned k=0;k<ret.nslots;k++) rv.push_back(get(ret.o[0],k));
  for(Obj*o:f.allocas){ o->alive=false; if(last==o) last=nullptr; objs.erase(o->base); delete o; }
  T->stk=f.sp; T->regs.resize(f.base); T->fr.pop_back();
  if(T->fr.empty()){ T->done=true; threadDone(); return; }
  curBase=T->fr.back().base; if(call&&call->dst>=0) for(unsigned k=0;k<rv.size();k++) set(call->dst+k,rv[k]);
}
void gotoBB(Frame&f,int bb){
  // current block index
  int cur=curBB(f); f.prevBB=cur; f.pc=f.f->blocks[bb];
  // phis evaluated in parallel
  int p=f.pc; if(f.f->code[p].op!=Instruction::PHI) return;
  SV tmp[64]; std::vector<SV> big; int n=0; int q=p;
  std::vector<std::pair<int,SV>> vals;
  while(f.f->code[q].op==Instruction::PHI){ const Inst&in=f.f->code[q]; int oi=-1; for(auto&c:in.cases) if((int)c.first==cur){oi=c.second;break;} for(unsigned k=0;k<in.nslots;k++) vals.push_back({in.dst+(int)k,get(in.o[oi],k)}); q++; }
  for(auto&v:vals) set(v.first,v.second); f.pc=q; (void)tmp; (void)big; (void)n; }
int curBB(Frame&f){ auto&b=f.f->blocks; int pc=f.pc; int r=(int)(std::upper_bound(b.begin(),b.end(),pc)-b.begin())-1; return r; }

static double asD(uint64_t v,unsigned w){ if(w==32){ float f; uint32_t x=v; memcpy(&f,&x,4); return f;} double d; memcpy(&d,&v,8); return d; }
static uint64_t fromD(double d,unsigned w){ if(w==32){ float f=d; uint32_t x; memcpy(&x,&f,4); return x;} uint64_t v; memcpy(&v,&d,8); return v; }

SV binop(XOp op,const SV&a,const SV&b,unsigned w){ if(!a.e&&!b.e) return C(ExprPool::evalBin(op,a.c&maskw(w),b.c&maskw(w),w)); return mk(P.bin(op,X(a,w),X(b,w))); }

// ---- scheduling
void clockTick(){ T->vc[T->id]++; }
void switchTo(int id){ if(T) { } T=threads[id].get(); if(!T->fr.empty()) curBase=T->fr.back().base; }
std::vector<int> runnable(){ std::vector<int> r; for(auto&t:threads){ if(t->done||t->yielded) continue; if(t->joinOn>=0){ if(!threads[t->joinOn]->done) continue; } r.push_back(t->id);} return r; }
void schedule(bool mustSwitch){
  if(threads.size()<2 && !mustSwitch) return;
  std::vector<int> r=runnable(); int self=T->id; bool selfOk=false; for(int x:r) if(x==self) selfOk=true;
  if(r.empty()){ bool all=true; for(auto&t:threads) if(!t->done) all=false; if(all) return; error("deadlock","no thread can make progress (every live thread waits)"); }
  int pick=-1;
  if(selfOk&&(preempts>=optPreempt||r.size()==1)&&!mustSwitch){ return; }
  if(!selfOk&&r.size()==1) { pick=r[0]; switchTo(pick); return; }
  // a scheduling choice: recorded as an input so that it can be replayed
  if(optPreempt<0){ pick=r[0]; for(size_t i=r.size();i-->0;) if(r[i]>self) pick=r[i]; } // round robin
  else if(ppos<prefix.size()){ Dec d=prefix[ppos++]; decs.push_back(d); if(d.kind!=2){ incompleteWhy["replay divergence(sched)"]++; st.incomplete++; end(4);} pick=(int)d.v; }
  else { st.branches++; std::vector<int> order; if(selfOk) order.push_back(self); for(int x:r) if(x!=self) order.push_back(x);
    for(size_t i=order.size();i-->1;){ st.forks++; Pending p; p.d=decs; p.d.push_back(Dec{2,0,(uint64_t)order[i]}); p.m=model; stack.push_back(std::move(p)); }
    pick=order[0]; decs.push_back(Dec{2,0,(uint64_t)pick}); }
  InputRec ir; ir.name="sched"; ir.v.push_back(C(pick)); ir.w.push_back(8); inputs.push_back(ir);
  if(selfOk&&pick!=self) preempts++;
  switchTo(pick); }
void threadDone(){ // current thread finished
  if(T->id==0){ return; }
  for(auto&t:threads) t->yielded=false;
  for(auto&t:threads) if(t->joinOn==T->id) { for(int i=0;i<8;i++) t->vc[i]=std::max(t->vc[i],T->vc[i]); }
  schedule(true); }
void atomicAcq(uint64_t a){ if(threads.size()<2) return; auto it=relvc.find(a); if(it==relvc.end()) return; for(int i=0;i<8;i++) T->vc[i]=std::max(T->vc[i],it->second[i]); }
void atomicRel(uint64_t a,int ord,bool rmw){ awrites++; for(auto&t:threads) if(t->id!=T->id) t->yielded=false;
  bool rel = ord==(int)AtomicOrdering::Release+1||ord==(int)AtomicOrdering::AcquireRelease+1||ord==(int)AtomicOrdering::SequentiallyConsistent+1;
  auto&v=relvc[a]; if(rel){ for(int i=0;i<8;i++) v[i]= rmw? std::max(v[i],T->vc[i]) : T->vc[i]; clockTick(); } else if(!rmw) v.fill(0); }
static bool isAcq(int ord){ return ord==(int)AtomicOrdering::Acquire+1||ord==(int)AtomicOrdering::AcquireRelease+1||ord==(int)AtomicOrdering::SequentiallyConsistent+1; }

void runPath(Func*entry){
  // reset
  for(auto&g:ginit){ if(g.first->dirty||!g.first->sym.empty()){ g.first->data=g.second; g.first->sym.clear(); g.first->dirty=false; } g.first->un.clear(); g.first->shadow.clear(); }
  for(auto*o:globals) { o->shadow.clear(); }
  for(auto&t:threads) for(auto&f:t->fr) for(auto*o:f.allocas){ objs.erase(o->base); delete o; }
  threads.clear(); for(auto*o:heapObjs){ objs.erase(o->base); delete o; } heapObjs.clear(); last=nullptr; hnext=HBASE; liveHeap=0; liveBytes=0;
  pc.clear(); nvars=0; inputs.clear(); obs.clear(); decs.clear(); ppos=0; preempts=0; awrites=0; relvc.clear(); pathInsts=0; newModel();
  threads.emplace_back(new Thread()); T=threads[0].get(); T->id=0; T->vc[0]=1; T->stk=SBASE; curBase=0; I=nullptr;
  pushFrame(entry,{},nullptr,nullptr);
  while(true){ if(threads[0]->done) return; step(); } }

void step(){
  Frame&f=T->fr.back(); const Inst&in=f.f->code[f.pc]; I=&in; in.hits++; pathInsts++; st.insts++;
  if(pathInsts>optMaxInst) { incompleteWhy["instruction limit at "+locOf(I)]++; st.incomplete++; record("hang","does not finish within the instruction bound"); end(4); }
  switch(in.op){
    case Instruction::Br: if(in.o.empty()) { gotoBB(f,in.t1); } else { bool c=cond(get(in.o[0])); gotoBB(f,c?in.t1:in.t2); } return;
    case Instruction::Switch: { SV v=get(in.o[0]); if(!v.e){ uint64_t x=v.c&maskw(in.w2); int t=in.t1; for(auto&c:in.cases) if(c.first==x){t=c.second;break;} gotoBB(f,t); return; }
      checkUninit(v,"switch");
      // group cases by target
      std::vector<std::pair<int,const Expr*>> grp; for(auto&c:in.cases){ const Expr*q=P.bin(E_EQ,v.e,P.con(c.first,in.w2)); bool fnd=false; for(auto&g:grp) if(g.first==c.second){ g.second=P.bin(E_OR,g.second,q); fnd=true; break; } if(!fnd) grp.push_back({c.second,q}); }
      for(auto&g:grp){ if(g.second->op==E_CONST){ if(g.second->val){ gotoBB(f,g.first); return; } continue; } if(decideBr(g.second)){ gotoBB(f,g.first); return; } }
      gotoBB(f,in.t1); return; }
    case Instruction::Ret: popFrame(in); return;
    case Instruction::Unreachable: error("unreachable","reached code the compiler assumed unreachable");
    case Instruction::Call: doCall(f,in); return;
    default: break; }
  f.pc++;
  switch(in.op){
    case Instruction::Alloca: { uint64_t n=conc(get(in.o[0]),64); Obj*o=stackAlloc(n*in.gepOff); set(in.dst,C(o->base)); return; }
    case Instruction::Load: { SV a=get(in.o[0]); 
      if(in.lay.size()==1){ if(in.w>64||in.w==0) unsupported("wide load"); SV v=load(a,in.lay[0][1],in.lay[0][2],in.ord!=0); set(in.dst,v); }
      else for(size_t k=0;k<in.lay.size();k++){ SV ak=binop(E_ADD,a,C(in.lay[k][0]),64); if(in.lay[k][2]>64) unsupported("wide load"); set(in.dst+k,load(ak,in.lay[k][1],in.lay[k][2])); }
      if(in.ord&&isAcq(in.ord)&&!a.e) atomicAcq(a.c);
      return; }
    case Instruction::Store: { SV a=get(in.o[0]);
      for(size_t k=0;k<in.lay.size();k++){ if(in.lay[k][2]>64) unsupported("wide store"); SV ak=k||in.lay[k][0]?binop(E_ADD,a,C(in.lay[k][0]),64):a; store(ak,in.lay[k][1],in.lay[k][2],get(in.o[1],k),in.ord!=0); }
      if(in.ord&&!a.e) atomicRel(a.c,in.ord,false);
      return; }
    case Instruction::GetElementPtr: { SV a=get(in.o[0]); uint64_t off=in.gepOff; 
      if(!a.e){ bool allc=true; uint64_t x=a.c+off; for(size_t k=0;k<in.gep.size();k++){ SV ix=get(in.o[in.gep[k].second]); if(ix.e){allc=false;break;} x+=(uint64_t)(sextw(ix.c,in.cases[k].first)*in.gep[k].first); } if(allc){ set(in.dst,C(x)); return; } }
      const Expr*e=P.bin(E_ADD,X(a,64),P.con(off,64)); for(size_t k=0;k<in.gep.size();k++){ SV ix=get(in.o[in.gep[k].second]); const Expr*x=P.sext(X(ix,in.cases[k].first),64); e=P.bin(E_ADD,e,P.bin(E_MUL,x,P.con(in.gep[k].first,64))); } set(in.dst,mk(e)); return; }
    case Instruction::ICmp: {
      for(unsigned k=0;k<in.nslots;k++){ SV a=get(in.o[0],k),b=get(in.o[1],k); unsigned w=in.w2; SV r;
      switch(in.sub){ case CmpInst::ICMP_EQ: r=binop(E_EQ,a,b,w); break; case CmpInst::ICMP_NE: r=binop(E_EQ,a,b,w); r= r.e? mk(P.notE(r.e)):C(!r.c); break;
        case CmpInst::ICMP_ULT: r=binop(E_ULT,a,b,w); break; case CmpInst::ICMP_ULE: r=binop(E_ULE,a,b,w); break; case CmpInst::ICMP_UGT: r=binop(E_ULT,b,a,w); break; case CmpInst::ICMP_UGE: r=binop(E_ULE,b,a,w); break;
        case CmpInst::ICMP_SLT: r=binop(E_SLT,a,b,w); break; case CmpInst::ICMP_SLE: r=binop(E_SLE,a,b,w); break; case CmpInst::ICMP_SGT: r=binop(E_SLT,b,a,w); break; default: r=binop(E_SLE,b,a,w); }
      set(in.dst+k,r);} return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if(in.w>64) unsupported("wide arithmetic");
      static const std::map<unsigned,XOp> m={{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR}};
      XOp op; switch(in.op){ case Instruction::Add: op=E_ADD;break; case Instruction::Sub: op=E_SUB;break; case Instruction::Mul: op=E_MUL;break; case Instruction::And: op=E_AND;break; case Instruction::Or: op=E_OR;break; case Instruction::Xor: op=E_XOR;break; case Instruction::Shl: op=E_SHL;break; case Instruction::LShr: op=E_LSHR;break; default: op=E_ASHR; }
      for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,binop(op,get(in.o[0],k),get(in.o[1],k),in.w)); return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      if(in.w>64) unsupported("wide arithmetic");
      XOp op= in.op==Instruction::UDiv?E_UDIV: in.op==Instruction::SDiv?E_SDIV: in.op==Instruction::URem?E_UREM:E_SREM;
      SV a=get(in.o[0]),b=get(in.o[1]); SV z=binop(E_EQ,b,C(0),in.w); if(cond(z)) error("divzero","division by zero");
      if(op==E_SDIV||op==E_SREM){ SV m1=binop(E_EQ,b,C(maskw(in.w)),in.w); SV mn=binop(E_EQ,a,C(1ull<<(in.w-1)),in.w); SV o=binop(E_AND,m1,mn,1); if(cond(o)) error("divovf","signed division overflow"); }
      set(in.dst,binop(op,a,b,in.w)); return; }
    case Instruction::Trunc: for(unsigned k=0;k<in.nslots;k++){ SV a=get(in.o[0],k); set(in.dst+k, a.e? mk(P.extract(a.e,0,in.w)):C(a.c&maskw(in.w))); } return;
    case Instruction::ZExt: for(unsigned k=0;k<in.nslots;k++){ SV a=get(in.o[0],k); if(in.w>64) unsupported("wide arithmetic"); set(in.dst+k, a.e? mk(P.zext(a.e,in.w)):C(a.c&maskw(in.w2))); } return;
    case Instruction::SExt: for(unsigned k=0;k<in.nslots;k++){ SV a=get(in.o[0],k); if(in.w>64) unsupported("wide arithmetic"); set(in.dst+k, a.e? mk(P.sext(a.e,in.w)):C((uint64_t)sextw(a.c,in.w2)&maskw(in.w))); } return;
    case Instruction::PtrToInt: { SV a=get(in.o[0]); set(in.dst, a.e? mk(in.w<64?P.extract(a.e,0,in.w):a.e):C(a.c&maskw(in.w))); return; }
    case Instruction::IntToPtr: { SV a=get(in.o[0]); set(in.dst, a.e? mk(P.zext(a.e,64)):C(a.c&maskw(in.w2))); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: if(in.nslots==1) set(in.dst,get(in.o[0])); else if(in.op==Instruction::Freeze) for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,get(in.o[0],k)); else unsupported("vector bitcast"); return;
    case Instruction::Select: { if(in.w2){ for(unsigned k=0;k<in.nslots;k++){ SV c=get(in.o[0],k); SV a=get(in.o[1],k),b=get(in.o[2],k); set(in.dst+k, c.e? mk(P.ite(c.e,X(a,in.w),X(b,in.w))): (c.c&1? a:b)); } return; }
      SV c=get(in.o[0]); if(!c.e){ for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,get(in.o[c.c&1?1:2],k)); return; }
      if(in.nslots==1&&in.w&&in.w<=64){ SV a=get(in.o[1]),b=get(in.o[2]);
        if(in.src->getType()->isPointerTy()){ bool s=cond(c); set(in.dst,s?a:b); return; }
        set(in.dst,mk(P.ite(c.e,X(a,in.w),X(b,in.w)))); return; }
      bool s=cond(c); for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,get(in.o[s?1:2],k)); return; }
    case Instruction::ExtractValue: for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,get(in.o[0],in.t1+k)); return;
    case Instruction::InsertValue: { std::vector<SV> v; for(unsigned k=0;k<in.nslots;k++) v.push_back(get(in.o[0],k)); for(int k=0;k<in.t2;k++) v[in.t1+k]=get(in.o[1],k); for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,v[k]); return; }
    case Instruction::ExtractElement: { uint64_t ix=conc(get(in.o[1]),64); set(in.dst,get(in.o[0],ix)); return; }
    case Instruction::InsertElement: { uint64_t ix=conc(get(in.o[2]),64); std::vector<SV> v; for(unsigned k=0;k<in.nslots;k++) v.push_back(get(in.o[0],k)); v[ix]=get(in.o[1]); for(unsigned k=0;k<in.nslots;k++) set(in.dst+k,v[k]); return; }
    case Instruction::ShuffleVector: { std::vector<SV> v; for(auto&c:in.cases) v.push_back(c.second<0?C(0): c.second<in.t1? get(in.o[0],c.second):get(in.o[1],c.second-in.t1)); for(unsigned k=0;k<v.size();k++) set(in.dst+k,v[k]); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { double a=asD(conc(get(in.o[0]),in.w),in.w),b=asD(conc(get(in.o[1]),in.w),in.w); double r= in.op==Instruction::FAdd?a+b: in.op==Instruction::FSub?a-b: in.op==Instruction::FMul?a*b: in.op==Instruction::FDiv?a/b: fmod(a,b); set(in.dst,C(fromD(r,in.w))); return; }
    case Instruction::FNeg: set(in.dst,C(fromD(-asD(conc(get(in.o[0]),in.w),in.w),in.w))); return;
    case Instruction::FPExt: case Instruction::FPTrunc: set(in.dst,C(fromD(asD(conc(get(in.o[0]),in.w2),in.w2),in.w))); return;
    case Instruction::SIToFP: if(optOpaqueFp&&get(in.o[0]).e){ set(in.dst,mk(P.var(nvars++,in.w,true))); return; }
      set(in.dst,C(fromD((double)sextw(conc(get(in.o[0]),in.w2),in.w2),in.w))); return;
    case Instruction::UIToFP: if(optOpaqueFp&&get(in.o[0]).e){ set(in.dst,mk(P.var(nvars++,in.w,true))); return; } // a text for people only
      set(in.dst,C(fromD((double)conc(get(in.o[0]),in.w2),in.w))); return;
    case Instruction::FPToSI: { double d=asD(conc(get(in.o[0]),in.w2),in.w2); set(in.dst,C((uint64_t)(int64_t)d&maskw(in.w))); return; }
    case Instruction::FPToUI: { double d=asD(conc(get(in.o[0]),in.w2),in.w2); set(in.dst,C((uint64_t)d&maskw(in.w))); return; }
    case Instruction::FCmp: { double a=asD(conc(get(in.o[0]),in.w2),in.w2),b=asD(conc(get(in.o[1]),in.w2),in.w2); bool u=std::isnan(a)||std::isnan(b); bool r=false; switch(in.sub){ case CmpInst::FCMP_OEQ: r=!u&&a==b;break; case CmpInst::FCMP_OGT: r=!u&&a>b;break; case CmpInst::FCMP_OGE: r=!u&&a>=b;break; case CmpInst::FCMP_OLT: r=!u&&a<b;break; case CmpInst::FCMP_OLE: r=!u&&a<=b;break; case CmpInst::FCMP_ONE: r=!u&&a!=b;break; case CmpInst::FCMP_ORD: r=!u;break; case CmpInst::FCMP_UNO: r=u;break; case CmpInst::FCMP_UEQ: r=u||a==b;break; case CmpInst::FCMP_UGT: r=u||a>b;break; case CmpInst::FCMP_UGE: r=u||a>=b;break; case CmpInst::FCMP_ULT: r=u||a<b;break; case CmpInst::FCMP_ULE: r=u||a<=b;break; case CmpInst::FCMP_UNE: r=u||a!=b;break; case CmpInst::FCMP_TRUE: r=true; break; default: r=false; } set(in.dst,C(r)); return; }
    case Instruction::Fence: return;
    case Instruction::AtomicCmpXchg: { uint64_t a=conc(get(in.o[0]),64); unsigned nb=(in.w2+7)/8; SV old=load(C(a),nb,in.w2,true); SV q=binop(E_EQ,old,get(in.o[1]),in.w2); bool ok=cond(q);
      if(ok){ if(isAcq(in.ord)) atomicAcq(a); store(C(a),nb,in.w2,get(in.o[2]),true); atomicRel(a,in.ord,true); } else if(isAcq(in.t1)) atomicAcq(a);
      set(in.dst,old); set(in.dst+1,C(ok)); return; }
    case Instruction::AtomicRMW: { uint64_t a=conc(get(in.o[0]),64); unsigned nb=(in.w+7)/8; SV old=load(C(a),nb,in.w,true); SV v=get(in.o[1]); SV nv;
      switch(in.sub){ case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=binop(E_ADD,old,v,in.w); break; case AtomicRMWInst::Sub: nv=binop(E_SUB,old,v,in.w); break; case AtomicRMWInst::And: nv=binop(E_AND,old,v,in.w); break; case AtomicRMWInst::Or: nv=binop(E_OR,old,v,in.w); break; case AtomicRMWInst::Xor: nv=binop(E_XOR,old,v,in.w); break; default: unsupported("atomicrmw op"); }
      if(isAcq(in.ord)) atomicAcq(a); store(C(a),nb,in.w,nv,true); atomicRel(a,in.ord,true); set(in.dst,old); return; }
    default: unsupported(std::string("instruction ")+in.src->getOpcodeName()); } }

void doCall(Frame&f,const Inst&in){
  int b=in.builtin; unsigned na=in.t2;
  if(b==B_NONE){
    Func*fn=in.callee; if(!fn){ uint64_t a=conc(get(in.o[in.t1]),64); auto it=funcByAddr.find(a); if(it==funcByAddr.end()) error(a<4096?"null":"badcall","call through invalid function pointer"); fn=it->second; if(fn->decl){ b=builtinOf(fn->name); if(b==B_UNKNOWN) unsupported("external "+fn->name); f.pc++; builtin(b,in,na,fn->name); return; } int bb=builtinOf(fn->name); if(bb>=B_MALLOC&&bb<=B_BCMP){ f.pc++; builtin(bb,in,na,fn->name); return; } }
    f.pc++;
    std::vector<SV> args; std::vector<SV> extra; unsigned np=fn->f->arg_size();
    for(unsigned q=0;q<na;q++){ unsigned ns=in.cases[q].second; if(ns>1) { unsupported("aggregate argument"); }
      SV v=get(in.o[q]);
      if(q<np) args.push_back(v); else { unsigned w=in.cases[q].first; if(v.e&&w<64) v=mk(P.zext(v.e,64)); extra.push_back(v); } }
    // byval arguments: copy
    for(unsigned q=0;q<na&&q<np;q++) if(fn->f->hasParamAttribute(q,Attribute::ByVal)) { unsupported("byval argument"); }
    pushFrame(fn,args,&in,fn->vararg?&extra:nullptr); return; }
  f.pc++;
  builtin(b,in,na, in.callee?in.callee->name:"asm");
}
SV arg(const Inst&in,unsigned k){ return get(in.o[k]); }
void ret(const Inst&in,const SV&v,unsigned k=0){ if(in.dst>=0) set(in.dst+k,v); }
void addInput(const std::string&n,const std::vector<SV>&v,const std::vector<unsigned>&w){ InputRec r; r.name=n; r.v=v; r.w=w; inputs.push_back(r); }
void doFree(uint64_t a){ if(!a) return; Obj*o=find(a); if(!o||o->kind!=2||o->base!=a) error("badfree","free of a pointer not returned by malloc"); if(!o->alive) error("doublefree","double free"); race(o,0,o->size,true); o->alive=false; if(last==o) last=nullptr; liveHeap--; liveBytes-=o->size; o->data.shrink_to_fit(); }
void builtin(int b,const Inst&in,unsigned na,const std::string&name){
  (void)na;
  switch(b){
    case B_IGNORE: case B_VAEND: case B_STACKSAVE: ret(in,C(0)); return;
    case B_MALLOC: { uint64_t n=conc(arg(in,0),64); ret(in,C(heapAlloc(n,false)->base)); return; }
    case B_CALLOC: { uint64_t n=conc(arg(in,0),64)*conc(arg(in,1),64); ret(in,C(heapAlloc(n,true)->base)); return; }
    case B_REALLOC: { uint64_t p=conc(arg(in,0),64),n=conc(arg(in,1),64); Obj*o=nullptr; if(p){ o=find(p); if(!o||o->kind!=2||o->base!=p) error("badfree","realloc of a pointer not returned by malloc"); if(!o->alive) error("uaf","realloc of freed memory"); }
      Obj*q=heapAlloc(n,false); if(o){ uint64_t m=std::min(o->size,n); copyMem(q->base,o->base,m,true); doFree(p); } ret(in,C(q->base)); return; }
    case B_FREE: doFree(conc(arg(in,0),64)); return;
    case B_MEMCPY: case B_MEMMOVE: { uint64_t d=0,s=0; uint64_t n=conc(arg(in,2),64); SV dv=arg(in,0); ret(in,dv); if(!n) return; d=conc(dv,64); s=conc(arg(in,1),64); if(n>(1u<<30)) error("oob","memcpy/memmove with huge length"); copyMem(d,s,n,b==B_MEMMOVE); return; }
    case B_MEMSET: { uint64_t n=conc(arg(in,2),64); SV dv=arg(in,0); ret(in,dv); if(!n) return; uint64_t d=conc(dv,64); if(n>(1u<<30)) error("oob","memset with huge length"); Obj*o=access(d,n,true); race(o,d-o->base,n,true); SV v=arg(in,1); if(v.e) v=mk(P.extract(v.e,0,8)); else v.c&=255; for(uint64_t i=0;i<n;i++) writeAt(o,d-o->base+i,1,8,v); return; }
    case B_MEMCMP: case B_BCMP: { uint64_t n=conc(arg(in,2),64); if(!n){ ret(in,C(0)); return; } uint64_t x=conc(arg(in,0),64),y=conc(arg(in,1),64); if(n>(1u<<30)) error("oob","memcmp with huge length"); Obj*ox=access(x,n,false),*oy=access(y,n,false); race(ox,x-ox->base,n,false); race(oy,y-oy->base,n,false);
      bool sym=false; const Expr*e=P.con(0,32); // build from the end
      for(uint64_t i=n;i-->0;){ SV p=readAt(ox,x-ox->base+i,1,8),q=readAt(oy,y-oy->base+i,1,8);
        if(!p.e&&!q.e){ if(p.c!=q.c) e=P.con(p.c<q.c?(uint64_t)-1:1,32); continue; } sym=true;
        const Expr*pe=X(p,8),*qe=X(q,8); const Expr*eq=P.bin(E_EQ,pe,qe);
        if(b==B_BCMP) e=P.ite(eq,e,P.con(1,32)); else e=P.ite(eq,e,P.ite(P.bin(E_ULT,pe,qe),P.con((uint64_t)-1,32),P.con(1,32))); }
      (void)sym; ret(in,mk(e)); return; }
    case B_ASSERTFAIL: { std::string m=cstr(conc(arg(in,0),64)); error("assert","assertion failed: "+m); }
    case B_ABORT: error("abort","abort() called");
    case B_TRAP: error("trap","trap (undefined behaviour) reached");
    case B_FAIL: error("property",cstr(conc(arg(in,0),64)));
    case B_BYTES: { uint64_t p=conc(arg(in,0),64),n=conc(arg(in,1),64); std::string nm=cstr(conc(arg(in,2),64)); std::vector<SV> v; std::vector<unsigned> w; if(n){ Obj*o=access(p,n,true); for(uint64_t i=0;i<n;i++){ SV s=mk(P.var(nvars++,8,false)); writeAt(o,p-o->base+i,1,8,s); v.push_back(s); w.push_back(8);} } addInput(nm,v,w); return; }
    case B_VAR: { uint64_t bits=conc(arg(in,0),32); std::string nm=cstr(conc(arg(in,1),64)); SV s=mk(P.var(nvars++,bits,false)); addInput(nm,{s},{(unsigned)bits}); ret(in, mk(P.zext(s.e,64))); return; }
    case B_CHOOSE: { uint64_t n=conc(arg(in,0),32); std::string nm=cstr(conc(arg(in,1),64)); const Expr*v=P.var(nvars++,32,false); addInput(nm,{mk(v)},{32}); if(n==0) end(1); assume(P.bin(E_ULT,v,P.con(n,32))); ret(in,C(conc(mk(v),32))); return; }
    case B_ASSUME: { SV v=arg(in,0); checkUninit(v,"assume"); assume(P.notE(P.bin(E_EQ,X(v,in.w2?in.w2:32),P.con(0,in.w2?in.w2:32)))); return; }
    case B_ASSERT: { SV v=arg(in,0); st.oblig++; if(!v.e){ if(v.c&maskw(in.w2)) { st.obligConc++; return; } error("property",cstr(conc(arg(in,1),64))); }
      checkUninit(v,"assertion");
      const Expr*ok=P.notE(P.bin(E_EQ,v.e,P.con(0,in.w2)));
      if(ok->op==E_CONST){ if(ok->val){ st.obligConc++; return; } error("property",cstr(conc(arg(in,1),64))); }
      Model m=model; 
      if(ppos<prefix.size()) { addC(ok); return; } // discharged when this prefix was first executed
      int r=query(P.notE(ok),&m);
      if(r==0){ st.obligDis++; return; }
      if(r<0) return;
      { Model sv=model; model=m; newModel(); record("property",cstr(conc(arg(in,1),64))); model=sv; newModel(); }
      assume(ok); return; }
    case B_COVER: covers[cstr(conc(arg(in,0),64))]++; return;
    case B_OBS: { SV v=arg(in,0); checkUninit(v,"observed result"); obs.push_back(v); return; }
    case B_CONC: ret(in,C(conc(arg(in,0),64))); return;
    case B_HEAPLIVE: ret(in,C(liveHeap)); return;
    case B_HEAPBYTES: ret(in,C(liveBytes)); return;
    case B_ISALIVE: { uint64_t a=conc(arg(in,0),64); Obj*o=find(a); ret(in,C(o&&o->alive)); return; }
    case B_SYMMODE: ret(in,C(1)); return;
    case B_ISSYM: ret(in,C(arg(in,0).e!=nullptr)); return;
    case B_END: end(0);
    case B_DUMP: fprintf(stderr,"[dump] %s = %llx%s\n",cstr(conc(arg(in,1),64)).c_str(),(unsigned long long)ev(arg(in,0)),arg(in,0).e?" (sym)":""); return;
    case B_SELF: ret(in,C(T->id)); return;
    case B_SPAWN: { uint64_t fa=conc(arg(in,0),64); SV ar=arg(in,1); auto it=funcByAddr.find(fa); if(it==funcByAddr.end()||it->second->decl) unsupported("spawn target"); if(threads.size()>=8) unsupported("too many threads"); Thread*nt=new Thread(); nt->id=threads.size(); nt->stk=SBASE+SLIM*nt->id; for(int i=0;i<8;i++) nt->vc[i]=T->vc[i]; nt->vc[nt->id]=1; ret(in,C(nt->id)); clockTick(); threads.emplace_back(nt); Thread*me=T; T=nt; pushFrame(it->second,{ar},nullptr,nullptr); T=me; curBase=T->fr.back().base; return; }
    case B_JOIN: { uint64_t id=conc(arg(in,0),32); if(threads[id]->done){ for(int i=0;i<8;i++) T->vc[i]=std::max(T->vc[i],threads[id]->vc[i]); return; } T->joinOn=id; schedule(true); return; }
    case B_SCHED: schedule(false); return;
    case B_YIELD: T->yielded=true; if(threads.size()<2) error("deadlock","the only thread spins on a lock that nobody can release"); schedule(true); return;
    case B_BSWAP: { SV a=arg(in,0); unsigned n=in.w/8; if(!a.e){ uint64_t r=0; for(unsigned i=0;i<n;i++) r|=((a.c>>(8*i))&255)<<(8*(n-1-i)); ret(in,C(r)); } else { const Expr*e=P.extract(a.e,0,8); for(unsigned i=1;i<n;i++) e=P.concat(e,P.extract(a.e,8*i,8)); ret(in,mk(e)); } return; }
    case B_CTPOP: { const Expr*a=X(arg(in,0),in.w); const Expr*s=P.con(0,in.w); for(unsigned i=0;i<in.w;i++) s=P.bin(E_ADD,s,P.zext(P.extract(a,i,1),in.w)); ret(in,mk(s)); return; }
    case B_CTLZ: { const Expr*a=X(arg(in,0),in.w); const Expr*s=P.con(in.w,in.w); for(unsigned i=0;i<in.w;i++) s=P.ite(P.extract(a,i,1),P.con(in.w-1-i,in.w),s); ret(in,mk(s)); return; }
    case B_CTTZ: { const Expr*a=X(arg(in,0),in.w); const Expr*s=P.con(in.w,in.w); for(unsigned i=in.w;i-->0;) s=P.ite(P.extract(a,i,1),P.con(i,in.w),s); ret(in,mk(s)); return; }
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { SV x=arg(in,0),y=arg(in,1); SV lt=binop(b==B_UMAX||b==B_UMIN?E_ULT:E_SLT,x,y,in.w); bool mx=b==B_UMAX||b==B_SMAX; const Expr*t=X(mx?y:x,in.w),*e=X(mx?x:y,in.w); ret(in, lt.e? mk(P.ite(lt.e,t,e)) : (lt.c? (mx?y:x):(mx?x:y))); return; }
    case B_ABS: { const Expr*a=X(arg(in,0),in.w); ret(in,mk(P.ite(P.bin(E_SLT,a,P.con(0,in.w)),P.bin(E_SUB,P.con(0,in.w),a),a))); return; }
    case B_ADDOVF: case B_ADDOVF+1000: case B_SUBOVF: case B_SUBOVF+1000: case B_MULOVF: case B_MULOVF+1000: {
      unsigned w=in.w2; const Expr*x=X(arg(in,0),w),*y=X(arg(in,1),w); const Expr*r,*o; bool sg=b>=1000; int k=b%1000;
      if(w>64) unsupported("wide arithmetic");
      if(k==B_MULOVF){ r=P.bin(E_MUL,x,y); o=P.bin(sg?E_SMULOVF:E_UMULOVF,x,y); }
      else { r=P.bin(k==B_ADDOVF?E_ADD:E_SUB,x,y);
        if(!sg) o= k==B_ADDOVF? P.bin(E_ULT,r,x) : P.bin(E_ULT,x,y);
        else { const Expr*sx=P.extract(x,w-1,1),*sy=P.extract(y,w-1,1),*sr=P.extract(r,w-1,1); const Expr*d=P.notE(P.bin(E_EQ,sr,sx)); o= k==B_ADDOVF? P.bin(E_AND,P.bin(E_EQ,sx,sy),d): P.bin(E_AND,P.notE(P.bin(E_EQ,sx,sy)),d); } }
      ret(in,mk(r),0); ret(in,mk(o),1); return; }
    case B_EXPECT: ret(in,arg(in,0)); return;
    case B_USUBSAT+1000: case B_UADDSAT+1000: { bool ad=b==B_UADDSAT+1000; unsigned w=in.w; const Expr*x=X(arg(in,0),w),*y=X(arg(in,1),w); const Expr*r=P.bin(ad?E_ADD:E_SUB,x,y);
      const Expr*sx=P.extract(x,w-1,1),*sy=P.extract(y,w-1,1),*sr=P.extract(r,w-1,1); const Expr*d=P.notE(P.bin(E_EQ,sr,sx)); const Expr*o=ad?P.bin(E_AND,P.bin(E_EQ,sx,sy),d):P.bin(E_AND,P.notE(P.bin(E_EQ,sx,sy)),d);
      if(cond(mk(o))) ret(in,mk(P.ite(sx,P.con(1ull<<(w-1),w),P.con(maskw(w)>>1,w)))); else ret(in,mk(r)); return; }
    case B_USUBSAT: { const Expr*x=X(arg(in,0),in.w),*y=X(arg(in,1),in.w); ret(in,mk(P.ite(P.bin(E_ULT,x,y),P.con(0,in.w),P.bin(E_SUB,x,y)))); return; }
    case B_UADDSAT: { const Expr*x=X(arg(in,0),in.w),*y=X(arg(in,1),in.w); const Expr*r=P.bin(E_ADD,x,y); ret(in,mk(P.ite(P.bin(E_ULT,r,x),P.con(maskw(in.w),in.w),r))); return; }
    case B_FSHL: case B_FSHR: { const Expr*x=X(arg(in,0),in.w),*y=X(arg(in,1),in.w); uint64_t s=conc(arg(in,2),in.w)%in.w; if(b==B_FSHR) s=(in.w-s)%in.w, s = s; if(s==0){ ret(in,mk(b==B_FSHR?y:x)); return; } ret(in,mk(P.bin(E_OR,P.bin(E_SHL,x,P.con(s,in.w)),P.bin(E_LSHR,y,P.con(in.w-s,in.w))))); return; }
    case B_VASTART: { uint64_t va=T->fr.back().va; uint64_t p=conc(arg(in,0),64); store(C(p),4,32,C(48)); store(C(p+4),4,32,C(176)); store(C(p+8),8,64,C(va)); store(C(p+16),8,64,C(0)); return; }
    case B_VACOPY: copyMem(conc(arg(in,0),64),conc(arg(in,1),64),24,true); return;
    case B_FABS: ret(in,C(fromD(fabs(asD(conc(arg(in,0),in.w),in.w)),in.w))); return;
    case B_FLOOR: ret(in,C(fromD(floor(asD(conc(arg(in,0),in.w),in.w)),in.w))); return;
    case B_CEIL: ret(in,C(fromD(ceil(asD(conc(arg(in,0),in.w),in.w)),in.w))); return;
    case B_FMULADD: ret(in,C(fromD(asD(conc(arg(in,0),in.w),in.w)*asD(conc(arg(in,1),in.w),in.w)+asD(conc(arg(in,2),in.w),in.w),in.w))); return;
    case B_TLADDR: { uint64_t a=arg(in,0).c; if(T->id==0){ ret(in,C(a)); return; } const GlobalVariable*gv=nullptr; for(auto&g:gobj) if(g.second->base==a) gv=g.first; if(!gv){ ret(in,C(a)); return; } auto it=T->tls.find(gv); if(it==T->tls.end()){ Obj*src=gobj[gv]; Obj*o=heapAlloc(src->size,true); liveHeap--; liveBytes-=src->size; o->kind=0; if(gv->hasInitializer()) initBytes(o,0,gv->getInitializer()); it=T->tls.insert({gv,o->base}).first; } ret(in,C(it->second)); return; }
    case B_OBJSIZE: ret(in,C(maskw(in.w))); return;
    case B_ISCONST: ret(in,C(0)); return;
    default: unsupported("external "+name);
  } }
