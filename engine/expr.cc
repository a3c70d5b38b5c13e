#include "expr.h"
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <unordered_map>

u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
i128 sextw(u128 v, unsigned w) {
  v &= maskw(w);
  if (w < 128 && (v >> (w - 1)) & 1) v |= ~maskw(w);
  return (i128)v;
}

static std::vector<Expr *> table(1 << 16, nullptr);
static size_t count = 0;
static char *chunk = nullptr;
static size_t chunkLeft = 0;
static std::vector<E> syms;
static uint32_t markGen = 0;

size_t numExprs() { return count; }
uint32_t numSyms() { return syms.size(); }
E symExpr(uint32_t id) { return syms[id]; }

static inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

static E intern(K k, unsigned w, E a, E b, E c, uint32_t aux, u128 v) {
  uint64_t h = mix((uint64_t)k * 131 + w, aux);
  h = mix(h, a ? a->id + 1 : 0);
  h = mix(h, b ? b->id + 1 : 0);
  h = mix(h, c ? c->id + 1 : 0);
  h = mix(h, (uint64_t)v);
  h = mix(h, (uint64_t)(v >> 64));
  size_t idx = h & (table.size() - 1);
  for (Expr *e = table[idx]; e; e = e->next)
    if (e->h == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c &&
        e->aux == aux && e->v == v)
      return e;
  if (chunkLeft < sizeof(Expr)) {
    chunkLeft = sizeof(Expr) * 4096;
    chunk = (char *)aligned_alloc(64, (chunkLeft + 63) / 64 * 64);
  }
  Expr *e = (Expr *)chunk;
  chunk += sizeof(Expr);
  chunkLeft -= sizeof(Expr);
  memset((void *)e, 0, sizeof(Expr));
  e->k = k; e->w = w; e->id = count; e->aux = aux; e->a = a; e->b = b; e->c = c; e->v = v; e->h = h;
  e->has_sym = k == K::Sym || (a && a->has_sym) || (b && b->has_sym) || (c && c->has_sym);
  e->next = table[idx];
  table[idx] = e;
  count++;
  if (count > table.size()) {
    std::vector<Expr *> nt(table.size() * 2, nullptr);
    for (Expr *x : table)
      while (x) {
        Expr *n = x->next;
        size_t i = x->h & (nt.size() - 1);
        x->next = nt[i];
        nt[i] = x;
        x = n;
      }
    table.swap(nt);
  }
  return e;
}

E mkC(u128 v, unsigned w) { return intern(K::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
E mkSym(unsigned w, uint32_t *outid) {
  uint32_t id = syms.size();
  E e = intern(K::Sym, w, nullptr, nullptr, nullptr, id, 0);
  syms.push_back(e);
  if (outid) *outid = id;
  return e;
}

static double toD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static float toFl(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromFl(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

static u128 foldF(K k, unsigned w, u128 a, unsigned aw, u128 b) {
  switch (k) {
    case K::UToF: return w == 64 ? fromD((double)a) : fromFl((float)a);
    case K::SToF: return w == 64 ? fromD((double)sextw(a, aw)) : fromFl((float)sextw(a, aw));
    default: break;
  }
  double x = aw == 64 ? toD(a) : toFl(a), y = aw == 64 ? toD(b) : toFl(b);
  auto R = [&](double d) { return aw == 64 ? fromD(d) : fromFl((float)d); };
  switch (k) {
    case K::FAdd: return R(x + y);
    case K::FSub: return R(x - y);
    case K::FMul: return R(x * y);
    case K::FDiv: return R(x / y);
    case K::FFloor: return R(std::floor(x));
    case K::FCeil: return R(std::ceil(x));
    case K::FTrunc: return R(std::trunc(x));
    case K::FOEq: return x == y;
    case K::FOLt: return x < y;
    case K::FOLe: return x <= y;
    case K::FUno: return x != x || y != y;
    case K::FToU: return (x >= 0 && x < 3.4e38) ? ((u128)x & maskw(w)) : 0;
    case K::FToS: return (x > -1.7e38 && x < 1.7e38) ? ((u128)(i128)x & maskw(w)) : 0;
    case K::FExt: return aw == 64 ? fromFl((float)x) : fromD(x);
    default: abort();
  }
}

static u128 foldB(K k, unsigned w, u128 a, u128 b) {
  switch (k) {
    case K::Add: return a + b;
    case K::Sub: return a - b;
    case K::Mul: return a * b;
    case K::UDiv: return b ? a / b : maskw(w);
    case K::URem: return b ? a % b : a;
    case K::SDiv: {
      i128 x = sextw(a, w), y = sextw(b, w);
      if (!y) return x >= 0 ? maskw(w) : 1;
      if (y == -1) return (u128)0 - a;
      return (u128)(x / y);
    }
    case K::SRem: {
      i128 x = sextw(a, w), y = sextw(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (u128)(x % y);
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : a << (unsigned)b;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: {
      i128 x = sextw(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s);
    }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w);
    case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: abort();
  }
}
static bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }
static bool isComm(K k) {
  return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}

E mkF(K k, unsigned w, E a, E b) {
  if (a->isC() && (!b || b->isC())) return mkC(foldF(k, w, a->v, a->w, b ? b->v : 0), w);
  if (k == K::FDiv && b->isC() && a->w == 64) {
    int ex;
    double m = std::frexp(toD(b->v), &ex);
    if (m == 0.5 && ex > -1000 && ex < 1000) return mkF(K::FMul, w, a, mkC(fromD(std::ldexp(1.0, 1 - ex)), 64));
  }
  if (k == K::FToU && a->k == K::UToF) {
    // exact when the integer fits in the mantissa
    E s = a->a;
    unsigned sig = s->w;
    if (s->k == K::ZExt) sig = s->a->w;
    if (sig <= 53 && a->w == 64 && w >= sig) return w >= s->w ? mkZExt(s, w) : mkExtract(s, 0, w);
  }
  if ((k == K::FFloor || k == K::FCeil || k == K::FTrunc) && (a->k == K::UToF || a->k == K::SToF)) return a;  // already integral
  return intern(k, w, a, b, nullptr, 0, 0);
}

// x as (base, const) for Add chains
static void splitAdd(E e, E &base, u128 &c) {
  if (e->k == K::Add && e->b->isC()) { base = e->a; c = e->b->v; }
  else { base = e; c = 0; }
}

E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }

E mkNot(E a) {
  if (a->isC()) return mkC(~a->v, a->w);
  if (a->k == K::Not) return a->a;
  if (a->w == 1) {
    if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
    if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
    if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
    if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
  }
  return intern(K::Not, a->w, a, nullptr, nullptr, 0, 0);
}

E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u %u\n", (int)k, a->w, b->w); abort(); }
  if (a->isC() && b->isC()) return mkC(foldB(k, w, a->v, b->v), isCmp(k) ? 1 : w);
  if (isComm(k)) {
    if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
  }
  u128 m = maskw(w);
  switch (k) {
    case K::Add:
      if (b->isC()) {
        if (b->v == 0) return a;
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, a->a, mkC(a->b->v + b->v, w));
        if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      } else {
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
        if (b->k == K::Add && b->b->isC()) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
        if (a->k == K::Sub && a->b == b) return a->a;
        if (b->k == K::Sub && b->b == a) return b->a;
        if (w == 1) return mkBin(K::Xor, a, b);
      }
      break;
    case K::Sub:
      if (a == b) return mkC(0, w);
      if (b->isC()) return mkBin(K::Add, a, mkC((u128)0 - b->v, w));
      {
        E ab, bb; u128 ac, bc;
        splitAdd(a, ab, ac); splitAdd(b, bb, bc);
        if (ab == bb) return mkC(ac - bc, w);
        if (bc) return mkBin(K::Add, mkBin(K::Sub, a, bb), mkC((u128)0 - bc, w));
        if (ac && !ab->isC()) return mkBin(K::Add, mkBin(K::Sub, ab, b), mkC(ac, w));
        if (a->k == K::Add && a->a == b) return a->b;
        if (a->k == K::Add && a->b == b) return a->a;
        if (b->k == K::Sub && b->a == a) return b->b;
      }
      break;
    case K::Mul:
      if (b->isC()) {
        if (b->v == 0) return b;
        if (b->v == 1) return a;
        if ((b->v & (b->v - 1)) == 0) {
          unsigned s = 0; while (!((b->v >> s) & 1)) s++;
          return mkBin(K::Shl, a, mkC(s, w));
        }
      }
      break;
    case K::UDiv:
      if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) {
        unsigned s = 0; while (!((b->v >> s) & 1)) s++;
        return mkBin(K::LShr, a, mkC(s, w));
      }
      break;
    case K::URem:
      if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::And, a, mkC(b->v - 1, w));
      break;
    case K::And:
      if (a == b) return a;
      if (b->isC()) {
        if (b->v == 0) return b;
        if (b->v == m) return a;
        if (a->k == K::And && a->b->isC()) return mkBin(K::And, a->a, mkC(a->b->v & b->v, w));
        // contiguous low mask -> zext(extract)
        if (((b->v + 1) & b->v) == 0) {
          unsigned n = 0; while ((b->v >> n) & 1) n++;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        // contiguous mask
        {
          unsigned lo = 0; while (!((b->v >> lo) & 1)) lo++;
          unsigned n = 0; while (lo + n < w && ((b->v >> (lo + n)) & 1)) n++;
          if ((b->v >> lo) == maskw(n)) {
            E mid = mkConcat(mkExtract(a, lo, n), mkC(0, lo));
            return lo + n < w ? mkZExt(mid, w) : mid;
          }
        }
      }
      if (w == 1) {
        if (a->k == K::Not && a->a == b) return mkC(0, 1);
        if (b->k == K::Not && b->a == a) return mkC(0, 1);
        // absorption: a & (a & x)
        if (b->k == K::And && (b->a == a || b->b == a)) return b;
        if (a->k == K::And && (a->a == b || a->b == b)) return a;
        if (b->k == K::Or && (b->a == a || b->b == a)) return a;
        if (a->k == K::Or && (a->a == b || a->b == b)) return b;
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (b->isC()) {
        if (b->v == 0) return a;
        if (b->v == m) return b;
      }
      if (w == 1) {
        if (a->k == K::Not && a->a == b) return mkC(1, 1);
        if (b->k == K::Not && b->a == a) return mkC(1, 1);
        if (b->k == K::Or && (b->a == a || b->b == a)) return b;
        if (a->k == K::Or && (a->a == b || a->b == b)) return a;
        if (b->k == K::And && (b->a == a || b->b == a)) return a;
        if (a->k == K::And && (a->a == b || a->b == b)) return b;
      } else {
        // piecewise or: split at the boundary of a Concat/ZExt
        auto cut = [](E e) -> unsigned {
          if (e->k == K::Concat) return e->b->w;
          if (e->k == K::ZExt) return e->a->w;
          return 0;
        };
        unsigned ca = cut(a), cb = cut(b);
        if (ca && cb) {
          unsigned c = std::min(ca, cb);
          E lo_a = mkExtract(a, 0, c), lo_b = mkExtract(b, 0, c);
          E hi_a = mkExtract(a, c, w - c), hi_b = mkExtract(b, c, w - c);
          auto z = [](E e) { return e->isC() && e->v == 0; };
          if ((z(lo_a) || z(lo_b)) || (z(hi_a) || z(hi_b)))
            return mkConcat(mkBin(K::Or, hi_a, hi_b), mkBin(K::Or, lo_a, lo_b));
        }
      }
      break;
    case K::Xor:
      if (a == b) return mkC(0, w);
      if (b->isC()) {
        if (b->v == 0) return a;
        if (b->v == m) return mkNot(a);
        if (a->k == K::Xor && a->b->isC()) return mkBin(K::Xor, a->a, mkC(a->b->v ^ b->v, w));
      } else {
        if (a->k == K::Xor && a->a == b) return a->b;
        if (a->k == K::Xor && a->b == b) return a->a;
        if (b->k == K::Xor && b->a == a) return b->b;
        if (b->k == K::Xor && b->b == a) return b->a;
      }
      break;
    case K::Shl:
      if (b->isC()) {
        if (b->v == 0) return a;
        if (b->v >= w) return mkC(0, w);
        unsigned s = (unsigned)b->v;
        return mkConcat(mkExtract(a, 0, w - s), mkC(0, s));
      }
      break;
    case K::LShr:
      if (b->isC()) {
        if (b->v == 0) return a;
        if (b->v >= w) return mkC(0, w);
        unsigned s = (unsigned)b->v;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K::AShr:
      if (b->isC()) {
        if (b->v == 0) return a;
        unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K::Eq:
      if (a == b) return mkC(1, 1);
      if (w == 1) {
        if (b->isC()) return b->v ? a : mkNot(a);
        if (a->k == K::Not && a->a == b) return mkC(0, 1);
        if (b->k == K::Not && b->a == a) return mkC(0, 1);
      }
      if (b->isC()) {
        if (a->k == K::ZExt) {
          if (b->v >> a->a->w) return mkC(0, 1);
          return mkBin(K::Eq, a->a, mkC(b->v, a->a->w));
        }
        if (a->k == K::SExt) {
          u128 lo = b->v & maskw(a->a->w);
          if (((u128)sextw(lo, a->a->w) & m) != b->v) return mkC(0, 1);
          return mkBin(K::Eq, a->a, mkC(lo, a->a->w));
        }
        if (a->k == K::Concat) {
          unsigned lw = a->b->w;
          E h = mkBin(K::Eq, a->a, mkC(b->v >> lw, a->a->w));
          if (h->isC() && !h->v) return h;
          E l = mkBin(K::Eq, a->b, mkC(b->v, lw));
          return mkBin(K::And, h, l);
        }
        if (a->k == K::Ite) {
          E t = a->b, f = a->c;
          if (t->isC() || f->isC()) {
            E et = mkBin(K::Eq, t, b), ef = mkBin(K::Eq, f, b);
            if (et->isC() || ef->isC()) return mkIte(a->a, et, ef);
          }
        }
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Eq, a->a, mkC(b->v - a->b->v, w));
        if (a->k == K::Xor && a->b->isC()) return mkBin(K::Eq, a->a, mkC(b->v ^ a->b->v, w));
        if (a->k == K::Not) return mkBin(K::Eq, a->a, mkC(~b->v, w));
        if (a->k == K::Or && b->v == 0) return mkBin(K::And, mkEq(a->a, b), mkEq(a->b, b));
        if (a->k == K::Xor && b->v == 0) return mkEq(a->a, a->b);
        if (a->k == K::Sub && b->v == 0) return mkEq(a->a, a->b);
      } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
          return mkBin(K::And, mkEq(a->a, b->a), mkEq(a->b, b->b));
        E ab, bb; u128 ac, bc;
        splitAdd(a, ab, ac); splitAdd(b, bb, bc);
        if (ab == bb) return mkC((ac & m) == (bc & m), 1);
      }
      break;
    case K::Ult:
      if (a == b) return mkC(0, 1);
      if (b->isC() && b->v == 0) return mkC(0, 1);
      if (b->isC() && b->v == 1) return mkEq(a, mkC(0, w));
      if (a->isC() && a->v == m) return mkC(0, 1);
      if (a->isC() && a->v == 0) return mkNot(mkEq(b, a));
      if (a->k == K::ZExt && b->isC()) {
        if (b->v > maskw(a->a->w)) return mkC(1, 1);
        return mkBin(k, a->a, mkC(b->v, a->a->w));
      }
      if (b->k == K::ZExt && a->isC()) {
        if (a->v >= maskw(b->a->w)) return mkC(0, 1);
        return mkBin(k, mkC(a->v, b->a->w), b->a);
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      break;
    case K::Ule:
      if (a == b) return mkC(1, 1);
      if (a->isC() && a->v == 0) return mkC(1, 1);
      if (b->isC() && b->v == m) return mkC(1, 1);
      if (b->isC() && b->v == 0) return mkEq(a, b);
      if (a->isC() && a->v == 1) return mkNot(mkEq(b, mkC(0, w)));
      if (a->k == K::ZExt && b->isC()) {
        if (b->v >= maskw(a->a->w)) return mkC(1, 1);
        return mkBin(k, a->a, mkC(b->v, a->a->w));
      }
      if (b->k == K::ZExt && a->isC()) {
        if (a->v > maskw(b->a->w)) return mkC(0, 1);
        return mkBin(k, mkC(a->v, b->a->w), b->a);
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      break;
    case K::Slt:
    case K::Sle:
      if (a == b) return mkC(k == K::Sle, 1);
      // both non-negative by construction
      {
        auto nn = [](E e) { return (e->isC() && !((e->v >> (e->w - 1)) & 1)) || e->k == K::ZExt; };
        if (nn(a) && nn(b)) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
        if (nn(a) && b->isC()) return mkC(0, 1);   // b negative const
        if (nn(b) && a->isC()) return mkC(1, 1);
      }
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (a->k == K::SExt && b->isC()) {
        i128 bv = sextw(b->v, w);
        i128 lo = -((i128)1 << (a->a->w - 1)), hi = ((i128)1 << (a->a->w - 1)) - 1;
        if (bv >= lo && bv <= hi) return mkBin(k, a->a, mkC((u128)bv, a->a->w));
      }
      break;
    default: break;
  }
  return intern(k, isCmp(k) ? 1 : w, a, b, nullptr, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (c->isC()) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K::Not) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->v ? c : mkNot(c);
    if (a->isC()) return a->v ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
    if (b->isC()) return b->v ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
  }
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->k == K::Ite && a->c == b) return mkIte(mkBin(K::And, c, a->a), a->b, b);
  if (b->k == K::Ite && b->b == a) return mkIte(mkBin(K::Or, c, b->a), a, b->c);
  return intern(K::Ite, a->w, c, a, b, 0, 0);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (hi->isC() && lo->isC()) return mkC((hi->v << lo->w) | lo->v, w);
  if (hi->isC() && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a, lo->aux, w);
  if (hi->k == K::Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(hi->a, 0, w);
  // normalise to right-nested: concat(concat(x,y),z) -> concat(x, concat(y,z))
  if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // merge ext with first part of lo
  if (lo->k == K::Concat) {
    E l1 = lo->a;
    if (hi->k == K::Extract && l1->k == K::Extract && hi->a == l1->a && hi->aux == l1->aux + l1->w)
      return mkConcat(mkExtract(hi->a, l1->aux, hi->w + l1->w), lo->b);
    if (hi->isC() && l1->isC()) return mkConcat(mkC((hi->v << l1->w) | l1->v, hi->w + l1->w), lo->b);
  }
  if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(K::Concat, w, hi, lo, nullptr, 0, 0);
}

static std::unordered_map<uint64_t, E> exCache;
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo + w > a->w) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, a->w); abort(); }
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkC(a->v >> lo, w);
    case K::Extract: return mkExtract(a->a, a->aux + lo, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkC(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K::SExt: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
      return mkSExt(mkExtract(a->a, iw - 1, 1), w);
    }
    case K::Not: return mkNot(mkExtract(a->a, lo, w));
    case K::And: case K::Or: case K::Xor: case K::Ite: case K::Add: case K::Sub: case K::Mul: {
      // push inside (memoised); keeps byte-granular values simple
      if ((a->k == K::Add || a->k == K::Sub || a->k == K::Mul) && lo != 0) break;
      uint64_t key = ((uint64_t)a->id << 16) | (lo << 8) | w;
      auto it = exCache.find(key);
      if (it != exCache.end()) return it->second;
      E r = a->k == K::Ite ? mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w))
                           : mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      exCache[key] = r;
      return r;
    }
    default: break;
  }
  return intern(K::Extract, w, a, nullptr, nullptr, lo, 0);
}

E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) abort();
  if (a->isC()) return mkC(a->v, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkC(a->b->v, w), mkC(a->c->v, w));
  return intern(K::ZExt, w, a, nullptr, nullptr, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) abort();
  if (a->isC()) return mkC((u128)sextw(a->v, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K::SExt, w, a, nullptr, nullptr, 0, 0);
}

static uint64_t modelGen = 0;
Model::Model() : gen(++modelGen) {}
void Model::touch() { gen = ++modelGen; }
void Model::set(uint32_t id, u128 x) {
  if (id >= v.size()) v.resize(id + 1, 0);
  if (v[id] != x) { v[id] = x; touch(); }
}

// iterative-safe recursion: depth could be large on long ITE chains
static u128 evalRec(Expr *e, const Model &m) {
  if (e->k == K::Const) return e->v;
  if (e->ev_gen == m.gen) return e->ev;
  u128 r;
  switch (e->k) {
    case K::Sym: r = m.get(e->aux) & maskw(e->w); break;
    case K::Not: r = ~evalRec((Expr *)e->a, m); break;
    case K::Ite: r = evalRec((Expr *)e->a, m) ? evalRec((Expr *)e->b, m) : evalRec((Expr *)e->c, m); break;
    case K::Concat: r = (evalRec((Expr *)e->a, m) << e->b->w) | evalRec((Expr *)e->b, m); break;
    case K::Extract: r = evalRec((Expr *)e->a, m) >> e->aux; break;
    case K::ZExt: r = evalRec((Expr *)e->a, m); break;
    case K::SExt: r = (u128)sextw(evalRec((Expr *)e->a, m), e->a->w); break;
    default:
      if (e->k >= K::FAdd) {
        u128 x = evalRec((Expr *)e->a, m), y = e->b ? evalRec((Expr *)e->b, m) : 0;
        r = foldF(e->k, e->w, x, e->a->w, y);
      } else {
        u128 x = evalRec((Expr *)e->a, m), y = evalRec((Expr *)e->b, m);
        r = foldB(e->k, e->a->w, x, y);
      }
  }
  r &= maskw(e->w);
  e->ev_gen = m.gen;
  e->ev = r;
  return r;
}
u128 evalE(E e, const Model &m) { return evalRec((Expr *)e, m); }

void collectSyms(E e0, std::vector<uint32_t> &out) {
  uint32_t g = ++markGen;
  std::vector<Expr *> st;
  st.push_back((Expr *)e0);
  while (!st.empty()) {
    Expr *e = st.back();
    st.pop_back();
    if (e->mark == g || !e->has_sym) continue;
    e->mark = g;
    if (e->k == K::Sym) out.push_back(e->aux);
    if (e->a) st.push_back((Expr *)e->a);
    if (e->b) st.push_back((Expr *)e->b);
    if (e->c) st.push_back((Expr *)e->c);
  }
}

std::string exprStr(E e, int d) {
  static const char *n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","not","fadd","fsub","fmul","fdiv","ffloor","fceil","ftrunc","foeq","folt","fole","funo","utof","stof","ftou","ftos","fext"};
  char buf[64];
  if (e->k == K::Const) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->v, e->w); return buf; }
  if (e->k == K::Sym) { snprintf(buf, 64, "s%u:%u", e->aux, e->w); return buf; }
  if (d == 0) return "...";
  std::string s = std::string("(") + n[(int)e->k];
  if (e->k == K::Extract) { snprintf(buf, 64, "[%u+%u]", e->aux, e->w); s += buf; }
  if (e->k == K::ZExt || e->k == K::SExt) { snprintf(buf, 64, "%u", e->w); s += buf; }
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
