// Hash-consed bit-vector expressions (width 1..64) for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <string>
#include <cassert>
#include <algorithm>

enum Op : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE, E_NOT,
  E_UMULOVF, E_SMULOVF,
};

typedef std::vector<uint32_t> VarList; // sorted

struct Expr {
  Op op; uint8_t w; uint8_t lo; bool uninit;
  uint32_t id;
  uint64_t val;              // const value / var index
  const Expr *a, *b, *c;
  mutable const VarList *vars;   // lazily computed, interned
  mutable uint64_t ev; mutable uint32_t evEpoch;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct ExprHash { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 31 + e->lo * 131 + (e->uninit?7:0);
  h ^= e->val * 0xff51afd7ed558ccdull; h = (h << 13) | (h >> 51);
  h ^= (uint64_t)(uintptr_t)e->a * 0xc4ceb9fe1a85ec53ull; h = (h << 17) | (h >> 47);
  h ^= (uint64_t)(uintptr_t)e->b * 0x9E3779B97F4A7C15ull; h = (h << 19) | (h >> 45);
  h ^= (uint64_t)(uintptr_t)e->c * 0xff51afd7ed558ccdull; h ^= h >> 29;
  return h; } };
struct ExprEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->lo == y->lo && x->val == y->val &&
    x->a == y->a && x->b == y->b && x->c == y->c && x->uninit == y->uninit; } };

struct ExprPool {
  std::unordered_set<Expr*, ExprHash, ExprEq> tab;
  std::vector<Expr*> all;
  uint32_t epoch = 1;

  const Expr *intern(const Expr &t) {
    auto it = tab.find(const_cast<Expr*>(&t));
    if (it != tab.end()) return *it;
    Expr *e = new Expr(t);
    e->id = all.size(); e->vars = nullptr; e->evEpoch = 0; e->ev = 0;
    all.push_back(e); tab.insert(e);
    return e;
  }
  static Expr mk0(Op op, unsigned w, const Expr *a=nullptr, const Expr *b=nullptr, const Expr *c=nullptr) {
    Expr t; t.op=op; t.w=w; t.lo=0; t.uninit=false; t.id=0; t.val=0; t.a=a; t.b=b; t.c=c; t.vars=nullptr; t.ev=0; t.evEpoch=0;
    return t;
  }
  const Expr *con(uint64_t v, unsigned w) { Expr t=mk0(E_CONST,w); t.val=v&maskw(w); return intern(t); }
  const Expr *var(uint64_t idx, unsigned w, bool uninit) { Expr t=mk0(E_VAR,w); t.val=idx; t.uninit=uninit; return intern(t); }

  static bool isC(const Expr *e) { return e->op==E_CONST; }
  static bool isC(const Expr *e, uint64_t v) { return e->op==E_CONST && e->val==v; }

  static uint64_t evalBin(Op op, uint64_t x, uint64_t y, unsigned w) {
    uint64_t m=maskw(w);
    switch(op){
      case E_ADD: return (x+y)&m; case E_SUB: return (x-y)&m; case E_MUL: return (x*y)&m;
      case E_UDIV: return y? (x/y)&m : m;
      case E_SDIV: { int64_t a=sextw(x,w), b=sextw(y,w); if(b==0) return a>=0? m : 1; if(b==-1) return (0-(uint64_t)a)&m; return (uint64_t)(a/b)&m; }
      case E_UREM: return y? (x%y)&m : x;
      case E_SREM: { int64_t a=sextw(x,w), b=sextw(y,w); if(b==0) return x; if(b==-1) return 0; return (uint64_t)(a%b)&m; }
      case E_AND: return x&y; case E_OR: return x|y; case E_XOR: return x^y;
      case E_SHL: return y>=w?0:(x<<y)&m; case E_LSHR: return y>=w?0:(x>>y);
      case E_ASHR: { int64_t a=sextw(x,w); return y>=w? (a<0?m:0) : ((uint64_t)(a>>y))&m; }
      case E_EQ: return x==y; case E_ULT: return x<y; case E_ULE: return x<=y;
      case E_SLT: return sextw(x,w)<sextw(y,w); case E_SLE: return sextw(x,w)<=sextw(y,w);
      case E_UMULOVF: { unsigned __int128 p=(unsigned __int128)x*y; return (p>>w)!=0; }
      case E_SMULOVF: { __int128 p=(__int128)sextw(x,w)*sextw(y,w); return p!=(__int128)sextw((uint64_t)p,w); }
      default: assert(0); return 0;
    }
  }

  const Expr *notE(const Expr *a) {
    if (isC(a)) return con(!a->val,1);
    if (a->op==E_NOT) return a->a;
    return intern(mk0(E_NOT,1,a));
  }
  const Expr *ite(const Expr *c, const Expr *t, const Expr *f) {
    if (isC(c)) return c->val? t : f;
    if (t==f) return t;
    if (c->op==E_NOT) return ite(c->a,f,t);
    if (t->w==1 && isC(t) && isC(f)) return t->val? c : notE(c);
    if (t->w==1 && isC(t)) return t->val? bin(E_OR,c,f) : bin(E_AND,notE(c),f);
    if (t->w==1 && isC(f)) return f->val? bin(E_OR,notE(c),t) : bin(E_AND,c,t);
    return intern(mk0(E_ITE,t->w,c,t,f));
  }
  const Expr *extract(const Expr *e, unsigned lo, unsigned w) {
    if (lo==0 && w==e->w) return e;
    if (w==1 && lo+1==e->w && arith(e)) { int64_t l,h; srng(e,l,h); if (l>=0) return con(0,1); if (h<0) return con(1,1); }
    switch(e->op){
      case E_CONST: return con(e->val>>lo,w);
      case E_EXTRACT: return extract(e->a, e->lo+lo, w);
      case E_CONCAT: { unsigned lw=e->b->w;
        if (lo>=lw) return extract(e->a,lo-lw,w);
        if (lo+w<=lw) return extract(e->b,lo,w);
        return concat(extract(e->a,0,lo+w-lw), extract(e->b,lo,lw-lo)); }
      case E_ZEXT: { unsigned aw=e->a->w;
        if (lo>=aw) return con(0,w);
        if (lo+w<=aw) return extract(e->a,lo,w);
        return zext(extract(e->a,lo,aw-lo),w); }
      case E_SEXT: { unsigned aw=e->a->w;
        if (lo+w<=aw) return extract(e->a,lo,w);
        if (lo==0) return sext(e->a,w);
        break; }
      case E_ITE:
        if (isC(e->b)||isC(e->c)) return ite(e->a, extract(e->b,lo,w), extract(e->c,lo,w));
        break;
      case E_AND: case E_OR: case E_XOR:
        return bin(e->op, extract(e->a,lo,w), extract(e->b,lo,w));
      case E_ADD: case E_SUB: case E_MUL:
        if (lo==0) return bin(e->op, extract(e->a,0,w), extract(e->b,0,w));
        break;
      default: break;
    }
    Expr t=mk0(E_EXTRACT,w,e); t.lo=lo; return intern(t);
  }
  const Expr *concat(const Expr *hi, const Expr *lo) {
    unsigned w=hi->w+lo->w;
    if (isC(hi)&&isC(lo)) return con((hi->val<<lo->w)|lo->val, w);
    if (isC(hi,0)) return zext(lo,w);
    if (hi->op==E_ZEXT) return zext(concat(hi->a,lo),w);
    // adjacent extracts of one expression
    if (hi->op==E_EXTRACT) {
      if (lo->op==E_EXTRACT && lo->a==hi->a && hi->lo==lo->lo+lo->w) return extract(hi->a, lo->lo, w);
      if (lo->op==E_CONCAT && lo->a->op==E_EXTRACT && lo->a->a==hi->a && hi->lo==lo->a->lo+lo->a->w)
        return concat(extract(hi->a, lo->a->lo, hi->w+lo->a->w), lo->b);
    }
    if (hi->op==E_CONCAT && hi->b->op==E_EXTRACT && lo->op==E_EXTRACT && lo->a==hi->b->a && hi->b->lo==lo->lo+lo->w)
      return concat(hi->a, extract(lo->a, lo->lo, lo->w+hi->b->w));
    if (hi->op==E_EXTRACT && hi->lo>=lo->w && (hi->a->op==E_ADD||hi->a->op==E_SUB||hi->a->op==E_MUL) && extract(hi->a,hi->lo-lo->w,lo->w)==lo) return extract(hi->a,hi->lo-lo->w,w);
    if (hi->op==E_ITE) { // a conditional value taken apart into pieces
      const Expr *l = lo->op==E_ITE ? lo : lo->op==E_CONCAT && lo->a->op==E_ITE ? lo->a : nullptr;
      if (l && l->a==hi->a) {
        const Expr *t=concat(hi->b,l->b), *f=concat(hi->c,l->c);
        if (t->op!=E_CONCAT && f->op!=E_CONCAT) { const Expr *m=ite(hi->a,t,f); return l==lo ? m : concat(m,lo->b); }
      }
    }
    if (hi->op==E_CONCAT && hi->b->op==E_ITE && lo->op==E_ITE && hi->b->a==lo->a) return concat(hi->a, concat(hi->b, lo));
    if (hi->op==E_CONCAT) // right associate
      return concat(hi->a, concat(hi->b, lo));
    return intern(mk0(E_CONCAT,w,hi,lo));
  }
  const Expr *zext(const Expr *e, unsigned w) {
    if (w==e->w) return e;
    if (isC(e)) return con(e->val,w);
    if (e->op==E_ZEXT) return zext(e->a,w);
    if (e->op==E_ADD && isC(e->b)) { int bud=40; uint64_t lo,hi; rng(e->a,lo,hi,bud);
      if (hi<=maskw(e->w)-e->b->val) return bin(E_ADD,zext(e->a,w),con(e->b->val,w)); }
    // a full-width value split as zext(extract) stays as is
    return intern(mk0(E_ZEXT,w,e));
  }
  const Expr *sext(const Expr *e, unsigned w) {
    if (w==e->w) return e;
    if (isC(e)) return con((uint64_t)sextw(e->val,e->w),w);
    if (e->op==E_SEXT) return sext(e->a,w);
    if (e->op==E_ZEXT) return zext(e->a,w);
    if (e->op==E_ADD || e->op==E_EXTRACT || e->op==E_MUL || e->op==E_AND) { int bud=40; uint64_t lo,hi; rng(e,lo,hi,bud); if (hi<=(maskw(e->w)>>1)) return zext(e,w); }
    return intern(mk0(E_SEXT,w,e));
  }
  // unsigned upper bound, cheap
  static uint64_t umax(const Expr *e, int depth=4) {
    switch(e->op){
      case E_CONST: return e->val;
      case E_ZEXT: return umax(e->a,depth-1);
      case E_AND: if(depth>0) return std::min(umax(e->a,depth-1),umax(e->b,depth-1)); break;
      case E_LSHR: if(depth>0 && isC(e->b) && e->b->val<e->w) return umax(e->a,depth-1)>>e->b->val; break;
      case E_ITE: if(depth>0) return std::max(umax(e->b,depth-1),umax(e->c,depth-1)); break;
      case E_UREM: if(isC(e->b)&&e->b->val) return e->b->val-1; break;
      case E_ADD: if(depth>0){ uint64_t x=umax(e->a,depth-1),y=umax(e->b,depth-1); uint64_t s; if(!__builtin_add_overflow(x,y,&s)&&s<=maskw(e->w)) return s; } break;
      case E_OR: case E_XOR: if(depth>0){ uint64_t x=umax(e->a,depth-1)|umax(e->b,depth-1); if(!x) return 0; return maskw(64-__builtin_clzll(x)); } break;
      default: break;
    }
    return maskw(e->w);
  }
  // value range of sums and products that cannot wrap; bounded work
  static void rng(const Expr *e, uint64_t &lo, uint64_t &hi, int &budget) {
    lo=0; hi=maskw(e->w);
    if (e->op==E_CONST) { lo=hi=e->val; return; }
    if (--budget<0) return;
    uint64_t l1,h1,l2,h2,s;
    switch(e->op){
      case E_ZEXT: rng(e->a,lo,hi,budget); break;
      case E_ADD: rng(e->a,l1,h1,budget); rng(e->b,l2,h2,budget);
        if(!__builtin_add_overflow(h1,h2,&s)&&s<=hi) { hi=s; lo=l1+l2; } break;
      case E_MUL: rng(e->a,l1,h1,budget); rng(e->b,l2,h2,budget);
        if(!__builtin_mul_overflow(h1,h2,&s)&&s<=hi) { hi=s; lo=l1*l2; } break;
      case E_EXTRACT: if(e->lo+e->w==e->a->w) { rng(e->a,l1,h1,budget); lo=l1>>e->lo; hi=std::min(hi,h1>>e->lo); } break;
      case E_CONCAT: rng(e->a,l1,h1,budget); rng(e->b,l2,h2,budget); lo=(l1<<e->b->w)+l2; hi=(h1<<e->b->w)+h2; break;
      default: hi=umax(e); break;
    }
  }
  static bool arith(const Expr *e) { return e->op==E_ADD||e->op==E_MUL||e->op==E_SUB||e->op==E_XOR||e->op==E_SDIV; }
  static void srng(const Expr *e, int64_t &lo, int64_t &hi, int d=12) {
    int bud=200; uint64_t l,h; unsigned w=e->w; int64_t mx=(int64_t)(maskw(w)>>1), mn=-mx-1;
    lo=mn; hi=mx;
    if (isC(e)) { lo=hi=sextw(e->val,w); return; }
    if (d>0) {
      int64_t l1,h1,l2,h2; __int128 a,b;
      auto put=[&](){ if (a>=mn && b<=mx) { lo=(int64_t)a; hi=(int64_t)b; return true; } return false; };
      switch (e->op) {
        case E_SUB: srng(e->a,l1,h1,d-1); srng(e->b,l2,h2,d-1); a=(__int128)l1-h2; b=(__int128)h1-l2; if (put()) return; break;
        case E_ADD: srng(e->a,l1,h1,d-1); srng(e->b,l2,h2,d-1); a=(__int128)l1+l2; b=(__int128)h1+h2; if (put()) return; break;
        case E_XOR: if (isC(e->b,maskw(w))) { srng(e->a,l1,h1,d-1); lo=-1-h1; hi=-1-l1; return; } break;
        case E_MUL: if (isC(e->b) && sextw(e->b->val,w)>0) { int64_t c=sextw(e->b->val,w); srng(e->a,l1,h1,d-1); a=(__int128)l1*c; b=(__int128)h1*c; if (put()) return; } break;
        case E_SDIV: if (isC(e->b) && sextw(e->b->val,w)>0) { int64_t c=sextw(e->b->val,w); srng(e->a,l1,h1,d-1); lo=l1/c; hi=h1/c; return; } break;
        case E_SEXT: srng(e->a,lo,hi,d-1); return;
        case E_ITE: { int64_t l3,h3; srng(e->b,l1,h1,d-1); srng(e->c,l3,h3,d-1); lo=std::min(l1,l3); hi=std::max(h1,h3); return; }
        default: break;
      }
    }
    rng(e,l,h,bud); if (h<=(uint64_t)mx) { lo=(int64_t)l; hi=(int64_t)h; }
  }
  // a == y*c + r without wrapping and with r < c
  static bool divparts(const Expr *a, uint64_t c, const Expr *&y, const Expr *&r) {
    if (a->op!=E_ADD) return false;
    for (int k=0;k<2;k++) {
      const Expr *m=k?a->b:a->a, *q=k?a->a:a->b;
      if (m->op!=E_MUL || !isC(m->b,c)) continue;
      int bud=200; uint64_t lo,hi,l2,h2,s,t; rng(q,lo,hi,bud); if (hi>=c) continue;
      rng(m->a,l2,h2,bud); if (__builtin_mul_overflow(h2,c,&s)||__builtin_add_overflow(s,hi,&t)||t>maskw(a->w)) continue;
      y=m->a; r=q; return true;
    }
    return false;
  }
  // comparisons of a quotient by a positive constant are comparisons of the dividend
  const Expr *bound128(const Expr *x, __int128 k, bool sgn) { // x < k
    unsigned w=x->w; __int128 mn = sgn ? -((__int128)1<<(w-1)) : 0, mx = sgn ? ((__int128)1<<(w-1))-1 : ((__int128)1<<w)-1;
    if (k<=mn) return con(0,1); if (k>mx) return con(1,1);
    return bin(sgn?E_SLT:E_ULT,x,con((uint64_t)k,w));
  }
  const Expr *divlt(const Expr *d, __int128 k) { // d/c < k
    __int128 c=d->op==E_SDIV ? (__int128)sextw(d->b->val,d->w) : (__int128)d->b->val; bool sg=d->op==E_SDIV;
    if (!sg || k>0) return bound128(d->a,k*c,sg);
    return bound128(d->a,(k-1)*c+1,true);
  }
  static bool isdiv(const Expr *e) { return (e->op==E_SDIV && isC(e->b) && sextw(e->b->val,e->w)>1) || (e->op==E_UDIV && isC(e->b) && e->b->val>1); }
  const Expr *divcmp(Op op, const Expr *a, const Expr *b) {
    unsigned w=a->w; bool sg;
    if (isC(b) && isdiv(a)) { sg=a->op==E_SDIV;
      if (op==E_EQ) { __int128 k=sg?(__int128)sextw(b->val,w):(__int128)b->val; return bin(E_AND,divlt(a,k+1),notE(divlt(a,k))); }
      if (op==E_SLT && sg) return divlt(a,sextw(b->val,w));
      if (op==E_ULT) { if (!sg) return divlt(a,b->val); if (b->val<=(maskw(w)>>1)) return bin(E_AND,notE(divlt(a,0)),divlt(a,b->val)); }
    }
    if (isC(a) && isdiv(b)) { sg=b->op==E_SDIV;
      if (op==E_SLT && sg) return notE(divlt(b,(__int128)sextw(a->val,w)+1));
      if (op==E_ULT) { if (!sg) return notE(divlt(b,(__int128)a->val+1)); if (a->val<=(maskw(w)>>1)) return notE(bin(E_AND,notE(divlt(b,0)),divlt(b,(__int128)a->val+1))); }
    }
    return nullptr;
  }
  const Expr *bin(Op op, const Expr *a, const Expr *b) {
    unsigned w=a->w;
    unsigned rw = (op>=E_EQ&&op<=E_SLE)||op==E_UMULOVF||op==E_SMULOVF ? 1 : w;
    if (isC(a)&&isC(b)) return con(evalBin(op,a->val,b->val,w),rw);
    switch(op){
      case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
        if (isC(a) || (!isC(b) && a->id>b->id)) std::swap(a,b);
        break;
      default: break;
    }
    if (op==E_EQ||op==E_SLT||op==E_ULT) if (const Expr *r=divcmp(op,a,b)) return r;
    switch(op){
      case E_UMULOVF: case E_SMULOVF: {
        if (isC(a)) std::swap(a,b);
        if (!isC(b)) break;
        if (op==E_UMULOVF) { if (!b->val) return con(0,1); return bin(E_ULT,con(maskw(w)/b->val,w),a); }
        int64_t c=(int64_t)(b->val<<(64-w))>>(64-w), mx=(int64_t)(maskw(w)>>1), mn=-mx-1;
        if (c<=0) break;
        return bin(E_OR,bin(E_SLT,con(mx/c,w),a),bin(E_SLT,a,con(mn/c,w)));
      }
      case E_ADD:
        if (isC(b,0)) return a;
        if (isC(b) && a->op==E_ADD && isC(a->b)) return bin(E_ADD,a->a,con(a->b->val+b->val,w));
        break;
      case E_SUB:
        if (isC(b,0)) return a;
        if (a==b) return con(0,w);
        if (isC(b)) return bin(E_ADD,a,con(0-b->val,w));
        if (a->op==E_ADD && a->b==b) return a->a;
        if (a->op==E_ADD && a->a==b) return a->b;
        if (isC(a,0) && b->op==E_SUB && isC(b->a,0)) return b->b;
        break;
      case E_MUL:
        if (isC(b,0)) return b;
        if (isC(b,1)) return a;
        if (isC(b) && (b->val&(b->val-1))==0) return bin(E_SHL,a,con(__builtin_ctzll(b->val),w));
        break;
      case E_UDIV: if (isC(b,1)) return a;
        if (isC(b)&&b->val&&(b->val&(b->val-1))==0) return bin(E_LSHR,a,con(__builtin_ctzll(b->val),w));
        if (isC(b)&&b->val) { const Expr *y,*r; if (divparts(a,b->val,y,r)) return y;
          if (a->op==E_MUL||a->op==E_ADD||a->op==E_ZEXT) { int bud=200; uint64_t lo,hi; rng(a,lo,hi,bud); if (hi<b->val) return con(0,w); } }
        break;
      case E_UREM: if (isC(b,1)) return con(0,w);
        if (isC(b)&&b->val&&(b->val&(b->val-1))==0) return bin(E_AND,a,con(b->val-1,w));
        if (isC(b)&&b->val) { const Expr *y,*r; if (divparts(a,b->val,y,r)) return r;
          if (a->op==E_MUL||a->op==E_ADD||a->op==E_ZEXT) { int bud=200; uint64_t lo,hi; rng(a,lo,hi,bud); if (hi<b->val) return a; } }
        break;
      case E_AND:
        if (isC(b,0)) return b;
        if (isC(b,maskw(w))) return a;
        if (a==b) return a;
        if (isC(b)) {
          if (w>1 && a->op==E_ZEXT) { return zext(bin(E_AND,a->a,con(b->val,a->a->w)),w); }
        }
        if (const Expr*r=bitsplit(op,a,b)) return r;
        if (w==1 && (a->op==E_NOT? a->a==b : b->op==E_NOT && b->a==a)) return con(0,1);
        break;
      case E_OR:
        if (isC(b,0)) return a;
        if (isC(b,maskw(w))) return b;
        if (a==b) return a;
        if (w==1 && (a->op==E_NOT? a->a==b : b->op==E_NOT && b->a==a)) return con(1,1);
        if (const Expr*r=bitsplit(op,a,b)) return r;
        break;
      case E_XOR:
        if (isC(b,0)) return a;
        if (a==b) return con(0,w);
        if (w==1 && isC(b,1)) return notE(a);
        if (isC(b) && a->op==E_XOR && isC(a->b)) return bin(E_XOR,a->a,con(a->b->val^b->val,w));
        if (const Expr*r=bitsplit(op,a,b)) return r;
        break;
      case E_SHL:
        if (isC(b)) { if(b->val==0) return a; if(b->val>=w) return con(0,w);
          return concat(extract(a,0,w-b->val), con(0,b->val)); }
        break;
      case E_LSHR:
        if (isC(b)) { if(b->val==0) return a; if(b->val>=w) return con(0,w);
          return zext(extract(a,b->val,w-b->val),w); }
        break;
      case E_ASHR:
        if (isC(b)) { if(b->val==0) return a; unsigned s=b->val>=w?w-1:b->val;
          return sext(extract(a,s,w-s),w); }
        break;
      case E_EQ:
        if (a==b) return con(1,1);
        if (w==1 && isC(b)) return b->val? a : notE(a);
        if (isC(b)) {
          if (a->op==E_ADD||a->op==E_MUL) { int bud=200; uint64_t lo,hi; rng(a,lo,hi,bud); if (b->val<lo||b->val>hi) return con(0,1); }
          if (a->op==E_ZEXT) { if (b->val>maskw(a->a->w)) return con(0,1); return bin(E_EQ,a->a,con(b->val,a->a->w)); }
          if (a->op==E_SEXT) { uint64_t t=b->val&maskw(a->a->w); if (((uint64_t)sextw(t,a->a->w)&maskw(w))!=b->val) return con(0,1); return bin(E_EQ,a->a,con(t,a->a->w)); }
          if (a->op==E_CONCAT) { const Expr*x=bin(E_EQ,a->a,con(b->val>>a->b->w,a->a->w)); if(isC(x,0)) return x;
            const Expr*y=bin(E_EQ,a->b,con(b->val,a->b->w)); return bin(E_AND,x,y); }
          if (a->op==E_ADD && isC(a->b)) return bin(E_EQ,a->a,con(b->val-a->b->val,w));
          if (a->op==E_SUB && isC(a->a)) return bin(E_EQ,a->b,con(a->a->val-b->val,w));
          if (a->op==E_XOR && isC(a->b)) return bin(E_EQ,a->a,con(b->val^a->b->val,w));
          if (a->op==E_ITE && (isC(a->b)||isC(a->c))) {
            const Expr*x=bin(E_EQ,a->b,b),*y=bin(E_EQ,a->c,b);
            return ite(a->a,x,y);
          }
        } else if (a->op==E_ZEXT && b->op==E_ZEXT) {
          unsigned m=std::max(a->a->w,b->a->w); if (m<w) return bin(E_EQ,zext(a->a,m),zext(b->a,m));
        }
        break;
      case E_ULT:
        if (a==b) return con(0,1);
        if (isC(b)) { if(b->val==0) return con(0,1); if (umax(a)<b->val) return con(1,1); if(b->val==1) return bin(E_EQ,a,con(0,w)); }
        if (isC(a)) { if(a->val==maskw(w)) return con(0,1); if (umax(b)<=a->val) return con(0,1); if (a->val==0) return notE(bin(E_EQ,b,con(0,w))); }
        if (isC(b)||isC(a)) { const Expr *x=isC(b)?a:b; if (x->op==E_ADD||x->op==E_MUL) { int bud=200; uint64_t lo,hi; rng(x,lo,hi,bud);
          if (isC(b)) { if (hi<b->val) return con(1,1); if (lo>=b->val) return con(0,1); }
          else { if (lo>a->val) return con(1,1); if (hi<=a->val) return con(0,1); } } }
        if (a->op==E_ZEXT && isC(b)) return bin(E_ULT,a->a,con(b->val,a->a->w));
        if (b->op==E_ZEXT && isC(a)) return bin(E_ULT,con(a->val,b->a->w),b->a);
        break;
      case E_ULE:
        return notE(bin(E_ULT,b,a));
      case E_SLT:
        if (a==b) return con(0,1);
        if ((isC(b)&&arith(a))||(isC(a)&&arith(b))) { int64_t l1,h1,l2,h2; if(isC(a)) l1=h1=sextw(a->val,w); else srng(a,l1,h1); if(isC(b)) l2=h2=sextw(b->val,w); else srng(b,l2,h2);
          if (h1<l2) return con(1,1); if (l1>=h2) return con(0,1); }
        if (isC(b) && umax(a)<=(maskw(w)>>1)) { if ((b->val>>(w-1))&1) return con(0,1); return bin(E_ULT,a,b); }
        if (isC(a) && umax(b)<=(maskw(w)>>1)) { if ((a->val>>(w-1))&1) return con(1,1); return bin(E_ULT,a,b); }
        if (!isC(a)&&!isC(b)&& umax(a)<=(maskw(w)>>1) && umax(b)<=(maskw(w)>>1)) return bin(E_ULT,a,b);
        if (a->op==E_SEXT && isC(b) && (uint64_t)(sextw(sextw(b->val,w)&maskw(a->a->w),a->a->w))==(uint64_t)sextw(b->val,w)) return bin(E_SLT,a->a,con(b->val,a->a->w));
        if (b->op==E_SEXT && isC(a) && (uint64_t)(sextw(sextw(a->val,w)&maskw(b->a->w),b->a->w))==(uint64_t)sextw(a->val,w)) return bin(E_SLT,con(a->val,b->a->w),b->a);
        break;
      case E_SLE:
        return notE(bin(E_SLT,b,a));
      default: break;
    }
    return intern(mk0(op,rw,a,b));
  }

  // bitwise ops: split operands at known-constant runs of bits so that masked
  // and merged bit fields stay exact
  static unsigned boundary(const Expr *e) {
    if (e->op==E_CONCAT) { const Expr*l=e->b; while(l->op==E_CONCAT) l=l->b; return l->w; }
    if (e->op==E_ZEXT) return e->a->w;
    if (e->op==E_CONST && e->w>1) { // lowest run length
      uint64_t v=e->val; unsigned n= (v&1)? __builtin_ctzll(~v) : (v? __builtin_ctzll(v):64);
      if (n<e->w) return n;
    }
    return 0;
  }
  static int runs(const Expr *e) { int r=1; for(unsigned i=1;i<e->w;i++) if(((e->val>>i)^(e->val>>(i-1)))&1) r++; return r; }
  const Expr *bitsplit(Op op, const Expr *a, const Expr *b) {
    if (a->w==1) return nullptr;
    unsigned k=0;
    if (isC(b)) { if (runs(b)>6) return nullptr; k=boundary(b); if(!k) return nullptr; if (op==E_XOR) { if(a->op!=E_CONCAT&&a->op!=E_ZEXT) return nullptr; } }
    else { k=boundary(a); unsigned k2=boundary(b); if(!k||(k2&&k2<k)) k=k2; }
    if (!k) return nullptr;
    unsigned w=a->w;
    return concat(bin(op,extract(a,k,w-k),extract(b,k,w-k)), bin(op,extract(a,0,k),extract(b,0,k)));
  }
  // variables of an expression
  std::unordered_map<std::string,const VarList*> vlIntern;
  const VarList *internVL(VarList &&v) {
    std::string k((const char*)v.data(), v.size()*4);
    auto it=vlIntern.find(k); if(it!=vlIntern.end()) return it->second;
    auto *p=new VarList(std::move(v)); vlIntern[k]=p; return p;
  }
  const VarList *varsOf(const Expr *e) {
    if (e->vars) return e->vars;
    if (e->op==E_VAR) { VarList v{(uint32_t)e->id}; return e->vars=internVL(std::move(v)); }
    VarList r;
    for (const Expr *k : {e->a,e->b,e->c}) if (k) {
      const VarList *v=varsOf(k);
      if (r.empty()) r=*v; else if (!v->empty()) { VarList t; t.reserve(r.size()+v->size()); std::set_union(r.begin(),r.end(),v->begin(),v->end(),std::back_inserter(t)); r.swap(t); }
    }
    return e->vars=internVL(std::move(r));
  }
};
