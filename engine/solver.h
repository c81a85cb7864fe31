// SMT back end: translates Expr to z3 bit-vectors, decides slices of a path
// condition, keeps statistics.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <memory>
#include <cstring>
#include <unordered_map>

struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0; double time=0; double maxq=0; };

static inline double nowS() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

typedef std::vector<uint64_t> Model; // by variable index

struct Solver {
  ExprPool &P;
  Z3_context ctx=nullptr; Z3_solver s=nullptr;   // legacy (not reference counted) context
  std::vector<Z3_ast> memoM[2], litsM[2]; int mode=0; // by expr id; mode 1: products and quotients are opaque
  std::vector<signed char> hard;
  SolverStats st;
  unsigned timeoutMs = 60000;
  bool sawUnknown=false;
  std::string logic; int sinceReset=0;

  Solver(ExprPool &p): P(p) { init(); }
  static void onErr(Z3_context,Z3_error_code){}
  void init() {
    Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx,onErr);
    mkSolver();
  }
  void reset() { resetInt(); // drop the context (after fork, or when it grew too large)
    Z3_solver_dec_ref(ctx,s); Z3_del_context(ctx); for(int i=0;i<2;i++){ memoM[i].clear(); litsM[i].clear(); } sinceReset=0; init(); }
  void mkSolver() {
    s = getenv("SX_QFBV") ? Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")) : Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx,s);
    Z3_params pr=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,pr);
    Z3_params_set_uint(ctx,pr,Z3_mk_string_symbol(ctx,"timeout"),timeoutMs);
    Z3_solver_set_params(ctx,s,pr);
  }
  static bool isHard(const Expr *e) { return e->w>=32 && (e->op==E_MUL||e->op==E_UDIV||e->op==E_SDIV||e->op==E_UREM||e->op==E_SREM); }
  bool hasHard(const Expr *e) {
    if (hard.size()<=e->id) hard.resize(std::max<size_t>(P.all.size(), e->id+1), -1);
    if (hard[e->id]>=0) return hard[e->id];
    bool r=isHard(e); for (const Expr *k : {e->a,e->b,e->c}) if (k && !r) r=hasHard(k);
    return hard[e->id]=r;
  }
  Z3_ast tr(const Expr *e) {
    std::vector<Z3_ast> &memo=memoM[mode];
    if (mode && !(hasHard(e))) { mode=0; Z3_ast r=tr(e); mode=1; return r; }
    if (memo.size()<=e->id) memo.resize(std::max<size_t>(P.all.size(), e->id+1), nullptr);
    if (memo[e->id]) return memo[e->id];
    Z3_context c=ctx; Z3_ast r=nullptr;
    auto bvsort=[&](unsigned w){ return Z3_mk_bv_sort(c,w); };
    auto one=[&](){ return Z3_mk_unsigned_int64(c,1,bvsort(1)); };
    auto zero=[&](){ return Z3_mk_unsigned_int64(c,0,bvsort(1)); };
    // booleans (w==1) are represented as Bool sort
    auto B=[&](const Expr*x){ return tr(x); };
    bool bw = e->w==1;
    if (mode && isHard(e)) {
      int64_t lo,hi; P.srng(e,lo,hi); unsigned n=e->w; bool pos=lo>=0;
      if (pos) { n=64-__builtin_clzll((uint64_t)hi|1); if (n>e->w) n=e->w; }
      char nm[24]; snprintf(nm,24,"h%u",(unsigned)e->id); r=Z3_mk_const(c,Z3_mk_string_symbol(c,nm),bvsort(n));
      if (n<e->w) r=Z3_mk_zero_ext(c,e->w-n,r);
      auto K=[&](int64_t v){ return Z3_mk_int64(c,(int64_t)((uint64_t)v&maskw(e->w)),bvsort(e->w)); };
      auto KU=[&](int64_t v){ return Z3_mk_unsigned_int64(c,(uint64_t)v&maskw(e->w),bvsort(e->w)); }; (void)K;
      auto within=[&](Z3_ast v,int64_t l,int64_t h){ Z3_ast k[2]={Z3_mk_bvsle(c,KU(l),v),Z3_mk_bvsle(c,v,KU(h))}; return Z3_mk_ite(c,Z3_mk_and(c,2,k),v,KU(l)); };
      int64_t mx=(int64_t)(maskw(e->w)>>1);
      if (lo>-mx-1 || hi<mx) {
        int64_t m; bool lin = e->op==E_MUL && ExprPool::isC(e->b) && (m=(int64_t)e->b->val)>0 && m<=mx;
        if (lin && lo==0 && hi>=m) r=Z3_mk_ite(c,Z3_mk_eq(c,asbv(e->a),KU(0)),KU(0),within(r,m,hi)); // m*x is 0 or at least m
        else r=within(r,lo,hi);
      }
    } else switch(e->op){
      case E_CONST: r = bw ? (e->val? Z3_mk_true(c):Z3_mk_false(c)) : Z3_mk_unsigned_int64(c,e->val,bvsort(e->w)); break;
      case E_VAR: { std::string n="v"+std::to_string(e->val)+"_"+std::to_string(e->w)+(e->uninit?"u":"");
        Z3_symbol sy=Z3_mk_string_symbol(c,n.c_str());
        r = Z3_mk_const(c,sy, bw? Z3_mk_bool_sort(c):bvsort(e->w)); break; }
      case E_NOT: r=Z3_mk_not(c,B(e->a)); break;
      case E_ITE: r=Z3_mk_ite(c,B(e->a),tr(e->b),tr(e->c)); break;
      case E_EQ: r=Z3_mk_eq(c,tr(e->a),tr(e->b)); break;
      case E_ULT: if(e->a->w==1){ Z3_ast k[2]={Z3_mk_not(c,tr(e->a)),tr(e->b)}; r=Z3_mk_and(c,2,k);} else r=Z3_mk_bvult(c,tr(e->a),tr(e->b)); break;
      case E_SLT: if(e->a->w==1){ Z3_ast k[2]={tr(e->a),Z3_mk_not(c,tr(e->b))}; r=Z3_mk_and(c,2,k);} else r=Z3_mk_bvslt(c,tr(e->a),tr(e->b)); break;
      case E_AND: if(bw){Z3_ast k[2]={tr(e->a),tr(e->b)}; r=Z3_mk_and(c,2,k);} else r=Z3_mk_bvand(c,tr(e->a),tr(e->b)); break;
      case E_OR: if(bw){Z3_ast k[2]={tr(e->a),tr(e->b)}; r=Z3_mk_or(c,2,k);} else r=Z3_mk_bvor(c,tr(e->a),tr(e->b)); break;
      case E_XOR: if(bw) r=Z3_mk_xor(c,tr(e->a),tr(e->b)); else r=Z3_mk_bvxor(c,tr(e->a),tr(e->b)); break;
      case E_CONCAT: r=Z3_mk_concat(c,asbv(e->a),asbv(e->b)); break;
      case E_EXTRACT: r=Z3_mk_extract(c,e->lo+e->w-1,e->lo,asbv(e->a)); if(bw) r=Z3_mk_eq(c,r,one()); break;
      case E_ZEXT: r=Z3_mk_zero_ext(c,e->w-e->a->w,asbv(e->a)); break;
      case E_SEXT: r=Z3_mk_sign_ext(c,e->w-e->a->w,asbv(e->a)); break;
      case E_UMULOVF: { Z3_ast n=Z3_mk_bvmul_no_overflow(c,asbv(e->a),asbv(e->b),false); r=Z3_mk_not(c,n); break; }
      case E_SMULOVF: { Z3_ast k[2]={Z3_mk_bvmul_no_overflow(c,asbv(e->a),asbv(e->b),true),Z3_mk_bvmul_no_underflow(c,asbv(e->a),asbv(e->b))}; r=Z3_mk_not(c,Z3_mk_and(c,2,k)); break; }
      default: {
        Z3_ast x=asbv(e->a), y=asbv(e->b);
        switch(e->op){
          case E_ADD: r=Z3_mk_bvadd(c,x,y); break; case E_SUB: r=Z3_mk_bvsub(c,x,y); break; case E_MUL: { int64_t lo,hi; r=nullptr;
            if (P.isC(e->b) && e->w>8) { P.srng(e,lo,hi); int n = lo>=0 ? 64-__builtin_clzll((uint64_t)hi|1) : 65-std::min(__builtin_clzll((uint64_t)~lo|1),hi>=0?__builtin_clzll((uint64_t)hi|1):64);
              // a product whose range is known is computed at the width it needs
              if (n+1<(int)e->w || (lo>=0&&n<(int)e->w)) { Z3_ast m=Z3_mk_bvmul(c,Z3_mk_extract(c,n-1,0,x),Z3_mk_extract(c,n-1,0,y)); r=lo>=0?Z3_mk_zero_ext(c,e->w-n,m):Z3_mk_sign_ext(c,e->w-n,m); } }
            if (!r) r=Z3_mk_bvmul(c,x,y); break; }
          case E_UDIV: r=Z3_mk_bvudiv(c,x,y); break; case E_SDIV: r=Z3_mk_bvsdiv(c,x,y); break;
          case E_UREM: r=Z3_mk_bvurem(c,x,y); break; case E_SREM: r=Z3_mk_bvsrem(c,x,y); break;
          case E_SHL: r=Z3_mk_bvshl(c,x,y); break; case E_LSHR: r=Z3_mk_bvlshr(c,x,y); break; case E_ASHR: r=Z3_mk_bvashr(c,x,y); break;
          default: assert(0);
        }
        if(bw) r=Z3_mk_eq(c,r,one());
      }
    }
    (void)zero;
    if (memo.size()<=e->id) memo.resize(e->id+1,nullptr);
    memo[e->id]=r;
    return r;
  }
  Z3_ast asbv(const Expr *e) {
    Z3_ast r=tr(e);
    if (e->w==1) { Z3_context c=ctx; r=Z3_mk_ite(c,r,Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1)),Z3_mk_unsigned_int64(c,0,Z3_mk_bv_sort(c,1))); }
    return r;
  }
  // ---- linear integer reading of a query (over-approximation: what it refutes is refuted;
  // what it satisfies counts only when its model is confirmed by evaluation)
  Z3_solver si=nullptr; std::vector<Z3_ast> memoI, memoU; std::vector<std::pair<const Expr*,Z3_ast>> leaves; int siCount=0;
  void resetInt() { if (si) { Z3_solver_dec_ref(ctx,si); si=nullptr; } memoI.clear(); memoU.clear(); leaves.clear(); siCount=0; }
  Z3_ast num(__int128 v) { bool n=v<0; unsigned __int128 u=n?-(unsigned __int128)v:v; char b[48]; int i=47; b[i]=0; do { b[--i]='0'+(int)(u%10); u/=10; } while(u); if(n) b[--i]='-'; return Z3_mk_numeral(ctx,b+i,Z3_mk_int_sort(ctx)); }
  Z3_ast ileaf(const Expr *e, bool uns) {
    char nm[24]; snprintf(nm,24,"%c%u",uns?'u':'i',(unsigned)e->id); Z3_ast r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm),Z3_mk_int_sort(ctx));
    __int128 lo,hi; if (uns) { lo=0; hi=maskw(e->w); int bud=200; uint64_t l,h; P.rng(e,l,h,bud); lo=l; hi=h; } else { int64_t l,h; P.srng(e,l,h); lo=l; hi=h; }
    Z3_solver_assert(ctx,si,Z3_mk_ge(ctx,r,num(lo))); Z3_solver_assert(ctx,si,Z3_mk_le(ctx,r,num(hi)));
    leaves.push_back({e,r}); return r;
  }
  Z3_ast plus(Z3_ast a, Z3_ast b) { Z3_ast k[2]={a,b}; return Z3_mk_add(ctx,2,k); }
  Z3_ast minus(Z3_ast a, Z3_ast b) { Z3_ast k[2]={a,b}; return Z3_mk_sub(ctx,2,k); }
  Z3_ast wrap(Z3_ast s, __int128 lo, __int128 hi, unsigned w) {
    __int128 mx=((__int128)1<<(w-1))-1, mn=-mx-1, M=(__int128)1<<w;
    if (hi>mx) s=Z3_mk_ite(ctx,Z3_mk_gt(ctx,s,num(mx)),minus(s,num(M)),s);
    if (lo<mn) s=Z3_mk_ite(ctx,Z3_mk_lt(ctx,s,num(mn)),plus(s,num(M)),s);
    return s;
  }
  Z3_ast ii(const Expr *e) { // signed value
    if (memoI.size()<=e->id) memoI.resize(std::max<size_t>(P.all.size(),e->id+1),nullptr);
    if (memoI[e->id]) return memoI[e->id];
    Z3_context c=ctx; Z3_ast r=nullptr; int64_t l1,h1,l2,h2; unsigned w=e->w;
    if (w==1) { r=ib(e); memoI[e->id]=r; return r; }
    switch (e->op) {
      case E_CONST: r=num(sextw(e->val,w)); break;
      case E_ADD: P.srng(e->a,l1,h1); P.srng(e->b,l2,h2); r=wrap(plus(ii(e->a),ii(e->b)),(__int128)l1+l2,(__int128)h1+h2,w); break;
      case E_SUB: P.srng(e->a,l1,h1); P.srng(e->b,l2,h2); r=wrap(minus(ii(e->a),ii(e->b)),(__int128)l1-h2,(__int128)h1-l2,w); break;
      case E_MUL: if (P.isC(e->b)) { __int128 k=sextw(e->b->val,w); P.srng(e->a,l1,h1); __int128 mx=((__int128)1<<(w-1))-1, a=l1*k, b=h1*k; if (a>b) std::swap(a,b); if (a>=-mx-1&&b<=mx) { Z3_ast q[2]={num(k),ii(e->a)}; r=Z3_mk_mul(c,2,q); } } break;
      case E_SDIV: if (P.isC(e->b) && sextw(e->b->val,w)>0) { Z3_ast k=num(sextw(e->b->val,w)), x=ii(e->a); P.srng(e->a,l1,h1);
          Z3_ast p=Z3_mk_div(c,x,k); if (l1>=0) r=p; else r=Z3_mk_ite(c,Z3_mk_ge(c,x,num(0)),p,minus(num(0),Z3_mk_div(c,minus(num(0),x),k))); } break;
      case E_SREM: if (P.isC(e->b) && sextw(e->b->val,w)>0) { P.srng(e->a,l1,h1); if (l1>=0) r=Z3_mk_mod(c,ii(e->a),num(sextw(e->b->val,w))); } break;
      case E_UDIV: if (P.isC(e->b) && e->b->val>1) r=Z3_mk_div(c,iu(e->a),num(e->b->val)); break;
      case E_UREM: if (P.isC(e->b) && e->b->val>1 && e->b->val<=(maskw(w)>>1)) r=Z3_mk_mod(c,iu(e->a),num(e->b->val)); break;
      case E_XOR: if (P.isC(e->b,maskw(w))) r=minus(num(-1),ii(e->a)); else if (P.isC(e->b,maskw(w)>>1)) { P.srng(e->a,l1,h1); if (l1>=0) r=minus(num(maskw(w)>>1),ii(e->a)); } break;
      case E_ITE: r=Z3_mk_ite(c,ib(e->a),ii(e->b),ii(e->c)); break;
      case E_ZEXT: r=iu(e->a); break;
      case E_SEXT: if (e->a->w>1) r=ii(e->a); break;
      case E_EXTRACT: if (e->lo==0) { P.srng(e->a,l1,h1); if (l1>=0 && (uint64_t)h1<=(maskw(w)>>1)) r=ii(e->a); } break;
      default: break;
    }
    if (!r) r=ileaf(e,false);
    memoI[e->id]=r; return r;
  }
  Z3_ast iu(const Expr *e) { // unsigned value
    if (memoU.size()<=e->id) memoU.resize(std::max<size_t>(P.all.size(),e->id+1),nullptr);
    if (memoU[e->id]) return memoU[e->id];
    Z3_ast r; int64_t l,h;
    if (e->w==1) r=Z3_mk_ite(ctx,ib(e),num(1),num(0));
    else if (e->op==E_CONST) r=num(e->val);
    else if (P.srng(e,l,h), l>=0) r=ii(e);
    else if (e->op==E_VAR || e->op==E_EXTRACT || e->op==E_CONCAT) r=ileaf(e,true);
    else { Z3_ast x=ii(e); r=Z3_mk_ite(ctx,Z3_mk_lt(ctx,x,num(0)),plus(x,num((__int128)1<<e->w)),x); }
    memoU[e->id]=r; return r;
  }
  Z3_ast ib(const Expr *e) {
    if (memoI.size()<=e->id) memoI.resize(std::max<size_t>(P.all.size(),e->id+1),nullptr);
    if (memoI[e->id]) return memoI[e->id];
    Z3_context c=ctx; Z3_ast r=nullptr;
    switch (e->op) {
      case E_CONST: r=e->val?Z3_mk_true(c):Z3_mk_false(c); break;
      case E_NOT: r=Z3_mk_not(c,ib(e->a)); break;
      case E_AND: { Z3_ast k[2]={ib(e->a),ib(e->b)}; r=Z3_mk_and(c,2,k); break; }
      case E_OR: { Z3_ast k[2]={ib(e->a),ib(e->b)}; r=Z3_mk_or(c,2,k); break; }
      case E_XOR: r=Z3_mk_xor(c,ib(e->a),ib(e->b)); break;
      case E_ITE: r=Z3_mk_ite(c,ib(e->a),ib(e->b),ib(e->c)); break;
      case E_EQ: r=e->a->w==1?Z3_mk_iff(c,ib(e->a),ib(e->b)):Z3_mk_eq(c,ii(e->a),ii(e->b)); break;
      case E_SLT: if (e->a->w>1) r=Z3_mk_lt(c,ii(e->a),ii(e->b)); break;
      case E_ULT: if (e->a->w>1) r=Z3_mk_lt(c,iu(e->a),iu(e->b)); break;
      case E_EXTRACT: if (e->lo+1==e->a->w && e->a->w>1) r=Z3_mk_lt(c,ii(e->a),num(0)); break;
      default: break;
    }
    if (!r) { char nm[24]; snprintf(nm,24,"b%u",(unsigned)e->id); r=Z3_mk_const(c,Z3_mk_string_symbol(c,nm),Z3_mk_bool_sort(c)); leaves.push_back({e,r}); }
    memoI[e->id]=r; return r;
  }
  uint64_t evm(const Expr *e, const Model &m, std::unordered_map<const Expr*,uint64_t> &mm) {
    auto it=mm.find(e); if (it!=mm.end()) return it->second;
    uint64_t r;
    switch (e->op) {
      case E_CONST: r=e->val; break;
      case E_VAR: r=e->val<m.size()?m[e->val]&maskw(e->w):0; break;
      case E_NOT: r=!evm(e->a,m,mm); break;
      case E_ITE: r=evm(e->a,m,mm)?evm(e->b,m,mm):evm(e->c,m,mm); break;
      case E_CONCAT: r=(evm(e->a,m,mm)<<e->b->w)|evm(e->b,m,mm); break;
      case E_EXTRACT: r=(evm(e->a,m,mm)>>e->lo)&maskw(e->w); break;
      case E_ZEXT: r=evm(e->a,m,mm); break;
      case E_SEXT: r=(uint64_t)sextw(evm(e->a,m,mm),e->a->w)&maskw(e->w); break;
      default: r=ExprPool::evalBin(e->op,evm(e->a,m,mm),evm(e->b,m,mm),e->a->w);
    }
    mm[e]=r; return r;
  }
  int checkInt(const std::vector<const Expr*> &cs, Model *m) {
    double t0=nowS(); if (++siCount>300) resetInt();
    if (!si) { si=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,si); Z3_params pr=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,pr); Z3_params_set_uint(ctx,pr,Z3_mk_string_symbol(ctx,"timeout"),std::min(timeoutMs,4000u)); Z3_solver_set_params(ctx,si,pr); }
    std::vector<Z3_ast> as; for (auto *e: cs) as.push_back(ib(e));
    Z3_solver_push(ctx,si); for (auto a: as) Z3_solver_assert(ctx,si,a);
    Z3_lbool r=Z3_solver_check(ctx,si); int res=-1;
    if (r==Z3_L_FALSE) { res=0; st.queries++; st.unsat++; }
    else if (r==Z3_L_TRUE) {
      Z3_model zm=Z3_solver_get_model(ctx,si); Z3_model_inc_ref(ctx,zm); Model t; if (m) t=*m;
      std::vector<std::pair<const Expr*,Z3_ast>> ls=leaves; std::vector<uint32_t> mine; for (auto *e: cs) for (uint32_t v: *P.varsOf(e)) mine.push_back(v); std::sort(mine.begin(),mine.end());
      for (auto &l: ls) { const Expr *e=l.first; unsigned lo=0,w=e->w; const Expr *v=e; if (v->op==E_EXTRACT) { lo=v->lo; v=v->a; } if (v->op!=E_VAR || !std::binary_search(mine.begin(),mine.end(),(uint32_t)v->id)) continue; // other variables keep their values
        Z3_ast out=nullptr; if (!Z3_model_eval(ctx,zm,l.second,false,&out)) continue; uint64_t val; 
        if (w==1) { Z3_lbool b=Z3_get_bool_value(ctx,out); if (b==Z3_L_UNDEF) continue; val=b==Z3_L_TRUE; }
        else { if (Z3_get_ast_kind(ctx,out)!=Z3_NUMERAL_AST) continue; int64_t sv; uint64_t uv; if (Z3_get_numeral_int64(ctx,out,&sv)) val=(uint64_t)sv; else if (Z3_get_numeral_uint64(ctx,out,&uv)) val=uv; else continue; }
        if (t.size()<=v->val) t.resize(v->val+1,0); uint64_t mk=maskw(w)<<lo; t[v->val]=(t[v->val]&~mk)|((val<<lo)&mk); }
      Z3_model_dec_ref(ctx,zm);
      std::unordered_map<const Expr*,uint64_t> mm; bool ok=true; for (auto *e: cs) if (!evm(e,t,mm)) { ok=false; break; }
      if (ok) { res=1; st.queries++; st.sat++; if (m) *m=t; }
    }
    Z3_solver_pop(ctx,si,1); double dt=nowS()-t0; st.time+=dt; if (dt>st.maxq) st.maxq=dt;
    return res;
  }
  // returns 1 sat, 0 unsat, -1 unknown; fills model values for variables used
  int check(const std::vector<const Expr*> &cs, Model *m) {
    bool any=false; for (auto *e: cs) any|=hasHard(e);
    if (any) { int r=checkInt(cs,m); if (r>=0) return r; }
    if (any) { // what does not depend on the value of products is decided without them
      mode=1; unsigned t=timeoutMs; int r=check1(cs,nullptr); mode=0; (void)t;
      if (r==0) return 0;
      st.queries--; if (r==1) st.sat--; else st.unknown--;
    }
    else if (timeoutMs>4000) { // a quick look first; long sums are easier as integers
      setTimeout(3000); int r=check1(cs,m); setTimeout(timeoutMs); if (r>=0) return r;
      st.queries--; st.unknown--; sawUnknown=false;
      r=checkInt(cs,m); if (r>=0) return r;
    }
    return check1(cs,m);
  }
  void setTimeout(unsigned ms) { if (!s) return; Z3_params pr=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,pr); Z3_params_set_uint(ctx,pr,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,pr); Z3_params_dec_ref(ctx,pr); }
  int check1(const std::vector<const Expr*> &cs, Model *m) {
    double t0=nowS(); std::vector<Z3_ast> &lits=litsM[mode]; if(mode==0) {}
    if (st.queries && st.queries%20000==0) reset();
    static int lim=getenv("SX_LIT")?atoi(getenv("SX_LIT")):500;
    bool lit=lim>0; if(lit&&++sinceReset>lim) { reset(); }
    Z3_context c=ctx; Z3_lbool r;
    if(lit){
      std::vector<Z3_ast> as; for(auto*e:cs){ if(lits.size()<=e->id) lits.resize(e->id+1,nullptr); if(!lits[e->id]){ char nm[24]; snprintf(nm,24,"%c%u",mode?'k':'l',(unsigned)e->id); Z3_ast b=Z3_mk_const(c,Z3_mk_string_symbol(c,nm),Z3_mk_bool_sort(c)); lits[e->id]=b; Z3_solver_assert(c,s,Z3_mk_implies(c,b,tr(e))); } as.push_back(lits[e->id]); }
      r=Z3_solver_check_assumptions(ctx,s,as.size(),as.data()); }
    else { Z3_solver_push(ctx,s); for (auto *e: cs) { Z3_solver_assert(c,s,tr(e)); } r=Z3_solver_check(ctx,s); }
    st.queries++;
    int res = r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
    if (res==1) { st.sat++;
      if (m) {
        Z3_model mm=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,mm);
        for (auto *e: cs) for (uint32_t v: *P.varsOf(e)) {
          const Expr *ve=P.all[v];
          Z3_ast out=nullptr; 
          uint64_t val=0;
          if (Z3_model_eval(c,mm,tr(ve),true,&out)) {
            if (ve->w==1) val = Z3_get_bool_value(c,out)==Z3_L_TRUE; else { uint64_t u=0; if(Z3_get_numeral_uint64(c,out,&u)) val=u; }
          }
          if (m->size()<=ve->val) m->resize(ve->val+1,0);
          (*m)[ve->val]=val;
        }
        Z3_model_dec_ref(ctx,mm);
      }
    } else if (res==0) st.unsat++; else { st.unknown++; if(!mode) sawUnknown=true; }
    if(!lit) Z3_solver_pop(ctx,s,1);
    double dt=nowS()-t0; static bool slow=getenv("SX_SLOW"); if(slow&&dt>5) { fprintf(stderr,"SLOW %.1f res=%d n=%zu\n",dt,res,cs.size()); for(size_t i=cs.size()>3?cs.size()-3:0;i<cs.size();i++) fprintf(stderr,"  %.1500s\n",Z3_ast_to_string(ctx,tr(cs[i]))); } st.time+=dt; if(dt>st.maxq) st.maxq=dt;
    return res;
  }
};
