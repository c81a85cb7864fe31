// symx: symbolic executor for LLVM 18 bitcode (C programs), z3 back end.
//
// Explores every feasible path of a harness function by re-execution from a
// decision prefix. Inputs created with sx_* intrinsics are SMT variables; every
// branch, address, and assertion over them is decided by the solver.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <cmath>
#include <functional>
#include <sys/prctl.h>

using namespace llvm;
typedef ::Op XOp;

static ExprPool P;

struct SV { const Expr *e; uint64_t c; };
static inline SV C(uint64_t v) { return SV{nullptr, v}; }
static inline SV mk(const Expr *e) { if (e->op==E_CONST) return C(e->val); return SV{e,0}; }
static inline const Expr *X(const SV &v, unsigned w) { return v.e ? v.e : P.con(v.c, w); }

// ---------------------------------------------------------------- program

struct Opnd { int slot; std::vector<SV> *agg; SV k; };   // slot>=0: register

struct Func;
struct Inst {
  unsigned op; unsigned sub; unsigned w, w2; int dst; unsigned nslots;
  std::vector<Opnd> o;
  int t1, t2;                                  // branch targets (block idx)
  std::vector<std::pair<uint64_t,int>> cases;  // switch / phi(pred,opnd)
  std::vector<std::pair<int64_t,int>> gep;     // (scale, operand index) ; scale const in k
  int64_t gepOff;
  std::vector<std::array<unsigned,3>> lay;     // load/store aggregates: offset,bytes,width
  Func *callee; int builtin; bool isVoid; int ord; // ord: atomic ordering
  const Instruction *src; mutable uint64_t hits;
};
struct Block { int first; };
struct Func {
  std::string name; const Function *f; bool decl; int builtin;
  std::vector<Inst> code; std::vector<int> blocks; unsigned nregs; std::vector<int> args;
  uint64_t addr; bool decoded; bool entered; bool vararg;
};

enum Builtin { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP,
  B_ASSERTFAIL, B_ABORT, B_IGNORE, B_BYTES, B_VAR, B_CHOOSE, B_ASSUME, B_ASSERT, B_COVER, B_OBS, B_CONC, B_HEAPLIVE, B_HEAPBYTES,
  B_SPAWN, B_JOIN, B_SCHED, B_YIELD, B_END, B_SYMMODE, B_ISSYM, B_DUMP, B_BSWAP, B_CTLZ, B_CTTZ, B_CTPOP, B_UMAX,B_UMIN,B_SMAX,B_SMIN,B_ABS,
  B_ADDOVF, B_SUBOVF, B_MULOVF, B_EXPECT, B_VASTART, B_VAEND, B_VACOPY, B_FABS, B_FMULADD, B_TLADDR, B_USUBSAT, B_UADDSAT, B_FSHL, B_FSHR, B_FLOOR, B_CEIL, B_TRAP, B_OBJSIZE,
  B_ISCONST, B_MODEL, B_FAIL, B_STACKSAVE, B_PTRMASK, B_LIVEMARK, B_SELF, B_ISALIVE, B_HEAPVALID, B_UNKNOWN };

static Module *M; static const DataLayout *DL;
static std::map<const Function*,Func*> funcs;
static std::map<uint64_t,Func*> funcByAddr;
static std::map<std::string,Func*> funcByName;

// ---------------------------------------------------------------- options
static std::string optOut="symx.out"; static double optTime=600; static int optJobs=8; static uint64_t optMaxInst=50000000;
static int optWitness=20; static int optMaxViol=8; static uint64_t optSeed=1; static int optPreempt=2; static bool optUninit=true, optOpaqueFp=false;
static uint64_t optMaxPaths=~0ull; static std::string optEntry="harness"; static std::string optReplay; static bool optVerbose=false;
static double tStart;

// ---------------------------------------------------------------- memory
struct Shadow { uint8_t wt; uint32_t wc; uint32_t rc[8]; };
struct Obj {
  uint64_t base,size; uint8_t kind; bool alive, ro, dirty; // kind:0 global 1 stack 2 heap 3 func
  std::vector<uint8_t> data; std::vector<const Expr*> sym; std::vector<uint8_t> un; // un: uninitialised flags
  std::vector<Shadow> shadow; const char *name; uint32_t serial; const Inst *site;
};
static const uint64_t GBASE=0x10000, HBASE=0x40000000ull, SBASE=0x7f0000000000ull, SLIM=0x4000000ull;

struct Dec { uint8_t kind, side; uint64_t v; }; // kind 0 branch,1 conc,2 sched
struct Pending { std::vector<Dec> d; Model m; };

struct InputRec { std::string name; std::vector<SV> v; std::vector<unsigned> w; };
struct Stats { uint64_t paths=0, pathsDead=0, insts=0, forks=0, oblig=0, obligConc=0, obligDis=0, viol=0, incomplete=0, branches=0; };

struct PathEnd { int why; }; // 0 done 1 assume 2 error 3 limit 4 incomplete

struct Frame { Func *f; int pc; int prevBB; uint32_t base; std::vector<Obj*> allocas; const Inst *call; uint64_t va; uint64_t sp; };
struct Thread { std::vector<Frame> fr; std::vector<SV> regs; bool done=false; bool yielded=false; int64_t joinOn=-1; uint32_t vc[8]={0}; uint64_t stk; std::map<const GlobalVariable*,uint64_t> tls; int id; };

struct Violation { std::string kind,msg,where,stack,inputs; std::vector<Dec> dec; };

struct Shared { pthread_mutex_t mu; volatile int idle, nworkers, done, viol, stop; volatile uint64_t qhead,qtail; volatile uint64_t paths; double deadline; size_t cap; char buf[]; };
static Shared *SH=nullptr;

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c: s) { char b[8]; if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

struct Exec {
  Solver S{P};
  Stats st;
  std::map<uint64_t,Obj*> objs; // base -> obj (heap+globals)
  Obj *last=nullptr;
  std::vector<Obj*> globals; std::vector<Obj*> heapObjs; uint64_t hnext; uint32_t serial;
  std::map<const GlobalVariable*,Obj*> gobj;
  std::vector<const Expr*> pc; // path condition
  Model model; uint32_t nvars; std::vector<InputRec> inputs; std::vector<SV> obs; uint64_t liveHeap, liveBytes;
  std::vector<Dec> prefix; size_t ppos; std::vector<Dec> decs; std::vector<Pending> stack;
  std::vector<std::unique_ptr<Thread>> threads; Thread *T; int preempts; uint64_t awrites;
  std::map<uint64_t,std::array<uint32_t,8>> relvc;
  std::map<std::string,uint64_t> covers; std::map<std::string,uint64_t> pathErrs;
  std::vector<Violation> viols; std::set<std::string> violKeys;
  std::vector<std::string> witnesses; uint64_t rng=88172645463325252ull;
  uint64_t pathInsts; 
  std::map<std::string,uint64_t> incompleteWhy;
  const Inst *I=nullptr;

  // ---------- evaluation under the current model
  uint64_t ev(const Expr *e) {
    if (e->op==E_CONST) return e->val;
    if (e->evEpoch==P.epoch) return e->ev;
    uint64_t r=0;
    switch(e->op){
      case E_VAR: r = e->val<model.size()? model[e->val]&maskw(e->w) : 0; break;
      case E_NOT: r=!ev(e->a); break;
      case E_ITE: r=ev(e->a)? ev(e->b):ev(e->c); break;
      case E_CONCAT: r=(ev(e->a)<<e->b->w)|ev(e->b); break;
      case E_EXTRACT: r=(ev(e->a)>>e->lo)&maskw(e->w); break;
      case E_ZEXT: r=ev(e->a); break;
      case E_SEXT: r=(uint64_t)sextw(ev(e->a),e->a->w)&maskw(e->w); break;
      default: r=ExprPool::evalBin(e->op,ev(e->a),ev(e->b),e->a->w);
    }
    e->ev=r; e->evEpoch=P.epoch; return r;
  }
  uint64_t ev(const SV &v) { return v.e? ev(v.e):v.c; }
  void newModel() { P.epoch++; }

  // ---------- solver access with independence slicing and caching
  std::unordered_map<std::string,std::pair<int,Model>> qcache; // key -> result, model values (var ids parallel)
  int query(const Expr *c, Model *out) { // is pc && c satisfiable?
    // slice
    std::vector<const Expr*> sl; const VarList *v0=P.varsOf(c);
    if (v0->empty()) { return ev(c); }
    std::set<uint32_t> vs(v0->begin(),v0->end());
    std::vector<char> used(pc.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]){ const VarList*v=P.varsOf(pc[i]); bool hit=false; for(uint32_t x:*v) if(vs.count(x)){hit=true;break;}
        if(hit){ used[i]=1; ch=true; vs.insert(v->begin(),v->end()); } } }
    for(size_t i=0;i<pc.size();i++) if(used[i]) sl.push_back(pc[i]);
    sl.push_back(c);
    std::vector<uint32_t> ids; for(auto*e:sl) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
    std::string key((char*)ids.data(), ids.size()*4);
    auto it=qcache.find(key);
    if(it!=qcache.end()){ S.st.cacheHits++; if(it->second.first==1&&out){ size_t k=0; for(uint32_t v:vs){ uint64_t ix=P.all[v]->val; if(out->size()<=ix) out->resize(ix+1,0); (*out)[ix]=it->second.second[k++]; } } return it->second.first; }
    Model m=model; if(out) m=*out;
    int r=S.check(sl,&m);
    if(r>=0){ Model mv; if(r==1) for(uint32_t v:vs){ uint64_t ix=P.all[v]->val; mv.push_back(ix<m.size()?m[ix]:0); }
      if(qcache.size()>400000) qcache.clear();
      qcache[key]={r,mv}; }
    if(r==1&&out) *out=m;
    if(r<0){ st.incomplete++; incompleteWhy["solver timeout/unknown"]++; }
    return r;
  }
  void addC(const Expr *c) { if (c->op==E_CONST) return;
    if (c->op==E_AND && c->w==1) { addC(c->a); addC(c->b); return; }
    for (auto*x:pc) if (x==c) return; pc.push_back(c); }

  [[noreturn]] void end(int why) { throw PathEnd{why}; }

  // ---------- decisions
  // symbolic branch; returns side
  bool decideBr(const Expr *c) {
    st.branches++;
    if (ppos<prefix.size()) { Dec d=prefix[ppos++]; decs.push_back(d); if(d.kind!=0) { incompleteWhy["replay divergence"]++; st.incomplete++; end(4);} if(!(d.v&1)) addC(d.side?c:P.notE(c)); return d.side; }
    bool cur=ev(c)!=0;
    const Expr *other = cur? P.notE(c):c;
    Model m=model; int r=query(other,&m);
    if (r==1) { // fork
      st.forks++;
      Pending p; p.d=decs; p.d.push_back(Dec{0,(uint8_t)!cur,0}); p.m=m; stack.push_back(std::move(p));
      decs.push_back(Dec{0,(uint8_t)cur,0}); addC(cur?c:P.notE(c));
    } else decs.push_back(Dec{0,(uint8_t)cur,1}); // forced: implied, no constraint needed
    return cur;
  }
  void checkUninit(const SV &v, const char *what) {
    if(!v.e||!optUninit) return;
    for(uint32_t x:*P.varsOf(v.e)) if(P.all[x]->uninit) { error("uninit",std::string("use of uninitialised memory in ")+what); }
  }
  bool cond(const SV &v) { if(!v.e) return v.c&1; checkUninit(v,"branch"); return decideBr(v.e); }
  uint64_t conc(const SV &v, unsigned w, int limit=100000) {
    if(!v.e) return v.c;
    checkUninit(v,"address, size or index");
    while(true){
      if (ppos<prefix.size()) { Dec d=prefix[ppos++]; decs.push_back(d); if(d.kind!=1){ incompleteWhy["replay divergence"]++; st.incomplete++; end(4);} const Expr*q=P.bin(E_EQ,v.e,P.con(d.v,w)); 
        if(d.side==1) { addC(q); return d.v; } if(d.side==2) return d.v; addC(P.notE(q)); continue; }
      uint64_t x=ev(v.e); const Expr*q=P.bin(E_EQ,v.e,P.con(x,w));
      Model m=model; int r=query(P.notE(q),&m);
      if(r==1){ st.forks++; Pending p; p.d=decs; p.d.push_back(Dec{1,0,x}); p.m=m; stack.push_back(std::move(p)); decs.push_back(Dec{1,1,x}); addC(q);} 
      else decs.push_back(Dec{1,2,x});
      return x;
    }
  }
  // is e forced to a single value by the path condition? (no fork)
  bool unique(const Expr*e,uint64_t*out){
    if (ppos<prefix.size()) { Dec d=prefix[ppos++]; decs.push_back(d); *out=d.v; return d.side; }
    uint64_t x=ev(e); Model m=model; int r=query(P.notE(P.bin(E_EQ,e,P.con(x,e->w))),&m);
    decs.push_back(Dec{4,(uint8_t)(r==0),x}); *out=x; return r==0; }
  // assume
  void assume(const Expr *c) {
    if(c->op==E_CONST){ if(!c->val) end(1); return; }
    if (ev(c)) { addC(c); return; }
    if (ppos<prefix.size()) { // model of the pending path satisfies everything up to the end of the prefix
      addC(c); return; }
    Model m=model; int r=query(c,&m); if(r!=1) end(1);
    model=m; newModel(); addC(c);
  }
  // ---------- errors
  std::string locOf(const Inst *i) { if(!i||!i->src) return "?"; std::string fn=i->src->getFunction()->getName().str();
    if (auto dl=i->src->getDebugLoc()) { auto*sp=dl->getScope(); std::string f=dl->getFilename().str(); size_t p=f.rfind('/'); if(p!=std::string::npos) f=f.substr(p+1);
      if (auto *sub=dl->getScope()->getSubprogram()) fn=sub->getName().str(); (void)sp;
      return f+":"+std::to_string(dl->getLine())+":"+fn; } return fn; }
  std::string stackStr() { std::string s; if(!T) return s; for(int i=(int)T->fr.size()-1;i>=0&&s.size()<2000;i--){ const Inst*x = i==(int)T->fr.size()-1? I : T->fr[i+1].call; s+=locOf(x); s+=" < "; } return s; }
  std::string inputStr() { std::string s; 
    for(auto&r:inputs){ s+=r.name; s+=" "; for(size_t i=0;i<r.v.size();i++){ uint64_t x=ev(r.v[i]); unsigned nb=(r.w[i]+7)/8; for(unsigned b=0;b<nb;b++){ char t[4]; snprintf(t,4,"%02x",(unsigned)(x>>(8*b))&255); s+=t; } } s+="\n"; }
    return s; }
  void record(const std::string &kind,const std::string &msg) {
    st.viol++;
    std::string key=kind+"|"+msg+"|"+locOf(I);
    if(violKeys.count(key)) return; violKeys.insert(key);
    Violation v; v.kind=kind; v.msg=msg; v.where=locOf(I); v.stack=stackStr(); v.inputs=inputStr(); v.dec=decs; viols.push_back(v);
    if(SH) { __sync_fetch_and_add(&SH->viol,1); if(SH->viol>=optMaxViol) SH->stop=1; }
  }
  [[noreturn]] void error(const std::string &kind,const std::string &msg) { record(kind,msg); end(2); }
  [[noreturn]] void unsupported(const std::string &what) { st.incomplete++; incompleteWhy["unsupported: "+what+" at "+locOf(I)]++; end(4); }

  // ---------- objects
  Obj *newObj(uint64_t base,uint64_t size,int kind,const char*name){ Obj*o=new Obj(); o->base=base;o->size=size;o->kind=kind;o->alive=true;o->ro=false;o->dirty=false;o->name=name;o->serial=serial++; o->site=I; o->data.resize(size,0); return o; }
  Obj *heapAlloc(uint64_t n,bool zero){ 
    if(n>(64u<<20)) unsupported("huge malloc "+std::to_string(n));
    uint64_t base=hnext; hnext+=((n+15)&~15ull)+48; Obj*o=newObj(base,n,2,"heap"); if(!zero) o->un.assign(n,1); heapObjs.push_back(o); objs[base]=o; liveHeap++; liveBytes+=n; return o; }
  std::vector<Obj*> stackObjs; // per all threads, ordered by creation; lookup by map too
  Obj *find(uint64_t a){ if(last&&a>=last->base&&a<last->base+last->size) return last;
    auto it=objs.upper_bound(a); if(it==objs.begin()) return nullptr; --it; Obj*o=it->second; if(a<=o->base+o->size) { if(a<o->base+o->size) last=o; return o; } return nullptr; }
  Obj *access(uint64_t a,uint64_t n,bool wr){
    Obj*o=find(a);
    if(!o||a<o->base) { if(a<4096) error("null",std::string(wr?"write":"read")+" through null pointer"); error("oob",std::string("wild ")+(wr?"write":"read")+" access"); }
    if(!o->alive) error("uaf",std::string(wr?"write":"read")+" after free/return ("+(o->kind==2?"heap":"stack")+")");
    if(a>o->base+o->size||n>o->base+o->size-a) error("oob",std::string(wr?"write":"read")+" out of bounds of "+(o->kind==2?"heap":o->kind==1?"stack":"global")+" object");
    if(wr&&o->ro) error("ro","write to constant");
    return o; }
  void race(Obj*o,uint64_t off,uint64_t n,bool wr){
    if(threads.size()<2) return; 
    if(o->shadow.size()!=o->size) { o->shadow.resize(o->size); for(auto&s:o->shadow){ memset(&s,0,sizeof s);} }
    for(uint64_t i=0;i<n;i++){ Shadow&s=o->shadow[off+i];
      if(s.wc && s.wt!=T->id && s.wc>T->vc[s.wt]) error("race",std::string("data race: ")+(wr?"write":"read")+" unordered with a write by another thread");
      if(wr){ for(int t=0;t<(int)threads.size();t++) if(t!=T->id&&s.rc[t]>T->vc[t]) error("race","data race: write unordered with a read by another thread"); s.wt=T->id; s.wc=T->vc[T->id]; }
      else s.rc[T->id]=T->vc[T->id]; } }
  const Expr *byteE(Obj*o,uint64_t i){ // symbolic or constant expression of a byte
    if(!o->un.empty()&&o->un[i]){ o->un[i]=0; if(o->sym.empty()) o->sym.assign(o->size,nullptr); const Expr*v=P.var(nvars++,8,true); o->sym[i]=v; return v; }
    if(!o->sym.empty()&&o->sym[i]) return o->sym[i];
    return P.con(o->data[i],8); }
  SV readAt(Obj*o,uint64_t off,unsigned nb,unsigned w){
    bool sym=false;
    if(!o->un.empty()) { for(unsigned i=0;i<nb;i++) if(o->un[off+i]) {sym=true;break;} }
    if(!sym&&!o->sym.empty()) for(unsigned i=0;i<nb;i++) if(o->sym[off+i]) {sym=true;break;}
    if(!sym){ uint64_t v=0; memcpy(&v,&o->data[off],nb); return C(v&maskw(w)); }
    const Expr*e=byteE(o,off); for(unsigned i=1;i<nb;i++) e=P.concat(byteE(o,off+i),e);
    if(w<nb*8) e=P.extract(e,0,w);
    return mk(e); }
  void writeAt(Obj*o,uint64_t off,unsigned nb,unsigned w,const SV&v){
    o->dirty=true;
    if(!o->un.empty()) memset(&o->un[off],0,nb);
    if(!v.e){ uint64_t x=v.c&maskw(w); memcpy(&o->data[off],&x,nb); if(!o->sym.empty()) for(unsigned i=0;i<nb;i++) o->sym[off+i]=nullptr; return; }
    const Expr*e=v.e; if(w<nb*8) e=P.zext(e,nb*8);
    if(o->sym.empty()) o->sym.assign(o->size,nullptr);
    for(unsigned i=0;i<nb;i++){ const Expr*b=P.extract(e,8*i,8); if(b->op==E_CONST){ o->data[off+i]=b->val; o->sym[off+i]=nullptr; } else o->sym[off+i]=b; } }
  // resolve a symbolic address to an object (forking), returns object; offset stays symbolic
  Obj *resolve(const SV&a,uint64_t n,bool wr){
    checkUninit(a,"address");
    while(true){
      uint64_t x; Obj*o; const Expr*in;
      if(ppos<prefix.size()&&prefix[ppos].kind==3){ x=prefix[ppos].v; o=find(x); }
      else { x=ev(a.e); o=find(x); if(!o||x<o->base) { access(x,n,wr); } }
      const Expr*off=P.bin(E_SUB,a.e,P.con(o->base,64));
      if(o->size<n) in=P.con(0,1); else in=P.bin(E_ULE,off,P.con(o->size-n,64));
      bool side;
      if(ppos<prefix.size()){ Dec d=prefix[ppos++]; decs.push_back(d); side=d.side; if(d.side!=2) addC(side?in:P.notE(in)); else side=true; }
      else { if(!ev(in)) { access(x,n,wr); unsupported("symbolic address resolution"); }
        Model m=model; int r=query(P.notE(in),&m);
        if(r==1){ st.forks++; Pending p; p.d=decs; p.d.push_back(Dec{3,0,o->base}); p.m=m; stack.push_back(std::move(p)); decs.push_back(Dec{3,1,o->base}); addC(in);} else decs.push_back(Dec{3,2,o->base});
        side=true; }
      if(side){ if(!o->alive) access(o->base,1,wr); return o; }
    } }
  const Expr *tableTree(Obj*o,const Expr*off,int bit,uint64_t prefixv,unsigned nb,unsigned w){
    if(bit<0){ if(prefixv+nb>o->size) return nullptr; SV v=readAt(o,prefixv,nb,w); return X(v,w); }
    if(prefixv>=o->size) return nullptr;
    const Expr*b=P.extract(off,bit,1);
    if(b->op==E_CONST) return tableTree(o,off,bit-1,prefixv|(b->val<<bit),nb,w);
    const Expr*l=tableTree(o,off,bit-1,prefixv,nb,w); const Expr*h=tableTree(o,off,bit-1,prefixv|(1ull<<bit),nb,w);
    if(!l) return h; if(!h) return l; return P.ite(b,h,l); }
  SV load(const SV&a,unsigned nb,unsigned w,bool atomic=false){
    if(!a.e){ Obj*o=access(a.c,nb,false); if(!atomic) race(o,a.c-o->base,nb,false); return readAt(o,a.c-o->base,nb,w); }
    Obj*o=resolve(a,nb,false);
    const Expr*off=P.bin(E_SUB,a.e,P.con(o->base,64));
    if(off->op==E_CONST){ if(!atomic) race(o,off->val,nb,false); return readAt(o,off->val,nb,w); }
    bool anyun=false; for(uint8_t u:o->un) if(u){anyun=true;break;}
    uint64_t uq; if(!anyun&&o->size<=8192&&unique(off,&uq)){ race(o,uq,nb,false); return readAt(o,uq,nb,w); }
    if(anyun||o->size>8192){ uint64_t x=conc(mk(off),64); race(o,x,nb,false); return readAt(o,x,nb,w); }
    race(o,0,o->size,false);
    int bits=64-__builtin_clzll(o->size|1); const Expr*e=tableTree(o,off,bits-1,0,nb,w);
    return mk(e); }
  void store(const SV&a,unsigned nb,unsigned w,const SV&v,bool atomic=false){
    if(!a.e){ Obj*o=access(a.c,nb,true); if(!atomic) race(o,a.c-o->base,nb,true); writeAt(o,a.c-o->base,nb,w,v); return; }
    Obj*o=resolve(a,nb,true); const Expr*off=P.bin(E_SUB,a.e,P.con(o->base,64));
    uint64_t x=conc(mk(off),64); if(!atomic) race(o,x,nb,true); writeAt(o,x,nb,w,v); }
  void copyMem(uint64_t d,uint64_t s,uint64_t n,bool move){
    if(!n) return; Obj*so=access(s,n,false); Obj*dn=access(d,n,true); race(so,s-so->base,n,false); race(dn,d-dn->base,n,true);
    uint64_t so_=s-so->base,do_=d-dn->base; dn->dirty=true;
    if(!move && so==dn && so_!=do_ && ((so_<do_&&so_+n>do_)||(do_<so_&&do_+n>so_))) error("overlap","memcpy with overlapping regions");
    bool sy=!so->sym.empty()||!dn->sym.empty(), un=!so->un.empty()||!dn->un.empty();
    if(sy){ if(dn->sym.empty()) dn->sym.assign(dn->size,nullptr); std::vector<const Expr*> t(n,nullptr); if(!so->sym.empty()) for(uint64_t i=0;i<n;i++) t[i]=so->sym[so_+i]; for(uint64_t i=0;i<n;i++) dn->sym[do_+i]=t[i]; }
    if(un){ if(dn->un.empty()) dn->un.assign(dn->size,0); std::vector<uint8_t> t(n,0); if(!so->un.empty()) for(uint64_t i=0;i<n;i++) t[i]=so->un[so_+i]; for(uint64_t i=0;i<n;i++) dn->un[do_+i]=t[i]; }
    memmove(&dn->data[do_],&so->data[so_],n); }
  std::string cstr(uint64_t a,size_t max=400){ std::string s; for(size_t i=0;i<max;i++){ Obj*o=find(a+i); if(!o||!o->alive||a+i>=o->base+o->size) break; SV v=readAt(o,a+i-o->base,1,8); uint64_t c=ev(v); if(!c) break; s+=(char)c; } return s; }

  // ---------- constants
  uint64_t gaddr(const GlobalValue*g){ if(auto*f=dyn_cast<Function>(g)) return funcs[f]->addr; if(auto*a=dyn_cast<GlobalAlias>(g)) return gaddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); auto it=gobj.find(cast<GlobalVariable>(g)); return it==gobj.end()?0:it->second->base; }
  uint64_t constVal(const Constant*c){
    if(auto*ci=dyn_cast<ConstantInt>(c)) { return ci->getValue().getActiveBits()>64? ci->getValue().trunc(64).getZExtValue():ci->getZExtValue(); }
    if(auto*cf=dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return 0;
    if(auto*g=dyn_cast<GlobalValue>(c)) return gaddr(g);
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { auto*gep=cast<GEPOperator>(ce); APInt off(64,0); gep->accumulateConstantOffset(*DL,off); return constVal(cast<Constant>(gep->getPointerOperand()))+off.getSExtValue(); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::Trunc: return constVal(ce->getOperand(0))&maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::ICmp: { uint64_t a=constVal(ce->getOperand(0)),b=constVal(ce->getOperand(1)); switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b; case CmpInst::ICMP_ULT: return a<b; case CmpInst::ICMP_UGT: return a>b; default: break; } break; }
        case Instruction::Add: return constVal(ce->getOperand(0))+constVal(ce->getOperand(1));
        case Instruction::Sub: return constVal(ce->getOperand(0))-constVal(ce->getOperand(1));
        case Instruction::Select: return constVal(ce->getOperand(0))?constVal(ce->getOperand(1)):constVal(ce->getOperand(2));
        default: break; } }
    errs()<<"unsupported constant: "<<*c<<"\n"; return 0; }
  void initBytes(Obj*o,uint64_t off,const Constant*c){
    Type*t=c->getType();
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
    if(auto*cds=dyn_cast<ConstantDataSequential>(c)){ unsigned es=DL->getTypeAllocSize(cds->getElementType()); for(unsigned i=0;i<cds->getNumElements();i++){ uint64_t v=constVal(cds->getElementAsConstant(i)); memcpy(&o->data[off+i*es],&v,es>8?8:es); } return; }
    if(auto*ca=dyn_cast<ConstantArray>(c)){ unsigned es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initBytes(o,off+i*es,ca->getOperand(i)); return; }
    if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initBytes(o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
    uint64_t v=constVal(c); unsigned n=DL->getTypeStoreSize(t); memcpy(&o->data[off],&v,n>8?8:n); }

  std::vector<std::pair<Obj*,std::vector<uint8_t>>> ginit;
  void setupGlobals(){
    uint64_t next=GBASE; serial=0;
    for(auto&g:M->globals()){ uint64_t sz=DL->getTypeAllocSize(g.getValueType()); next=(next+63)&~63ull; Obj*o=newObj(next,sz,0,strdup(g.getName().str().c_str())); next+=sz+32; gobj[&g]=o; objs[o->base]=o; globals.push_back(o); }
    uint64_t fa=0x20000000; for(auto&f:*M){ Func*fn=funcs[&f]; fn->addr=fa; funcByAddr[fa]=fn; fa+=16; }
    for(auto&g:M->globals()){ Obj*o=gobj[&g]; if(g.hasInitializer()) initBytes(o,0,g.getInitializer()); o->ro=g.isConstant(); o->dirty=false; }
    for(auto*o:globals) if(!o->ro) ginit.push_back({o,o->data});
  }
  #include "decode.inc"
  #include "run.inc"
  #include "explore.inc"
};

int main(int argc,char**argv){
  std::string bc; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto val=[&](const char*k)->const char*{ size_t n=strlen(k); return a.compare(0,n,k)==0? argv[i]+n:nullptr; };
    if(auto v=val("--out=")) optOut=v; else if(auto v=val("--time=")) optTime=atof(v); else if(auto v=val("--jobs=")) optJobs=atoi(v); else if(auto v=val("--maxinst=")) optMaxInst=strtoull(v,0,10);
    else if(auto v=val("--witness=")) optWitness=atoi(v); else if(auto v=val("--maxviol=")) optMaxViol=atoi(v); else if(auto v=val("--seed=")) optSeed=strtoull(v,0,10); else if(auto v=val("--opaquefp=")) optOpaqueFp=atoi(v); else if(auto v=val("--preempt=")) optPreempt=atoi(v);
    else if(auto v=val("--entry=")) optEntry=v; else if(auto v=val("--maxpaths=")) optMaxPaths=strtoull(v,0,10); else if(auto v=val("--uninit=")) optUninit=atoi(v); else if(a=="-v") optVerbose=true; else bc=a; }
  tStart=nowS();
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("symx",errs()); return 2; }
  M=mod.get(); DL=&M->getDataLayout();
  for(auto&f:*M){ Func*fn=new Func(); fn->name=f.getName().str(); fn->f=&f; fn->decl=f.isDeclaration(); fn->decoded=false; fn->entered=false; fn->nregs=0; fn->vararg=f.isVarArg(); fn->builtin=B_NONE; funcs[&f]=fn; funcByName[fn->name]=fn; }
  Exec ex; ex.setupGlobals();
  auto it=funcByName.find(optEntry); if(it==funcByName.end()||it->second->decl){ fprintf(stderr,"symx: no entry %s\n",optEntry.c_str()); return 2; }
  return ex.exploreAll(it->second);
}
