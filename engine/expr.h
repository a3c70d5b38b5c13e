// sxe: hash-consed bit-vector expression DAG (widths 1..128).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <utility>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,   // width-1 results
  Ite, Concat, Extract, ZExt, SExt, Not,
  // IEEE double/float carried as bit patterns
  FAdd, FSub, FMul, FDiv, FFloor, FCeil, FTrunc, FOEq, FOLt, FOLe, FUno,
  UToF, SToF, FToU, FToS, FExt
};

struct Expr {
  K k;
  uint16_t w;
  uint32_t id;          // unique
  uint32_t aux;         // Extract: low bit; Sym: symbol id
  const Expr *a, *b, *c;
  u128 v;               // Const value
  uint64_t h;
  Expr *next;
  // evaluation cache
  uint64_t ev_gen;
  u128 ev;
  uint32_t mark;
  bool has_sym;
  bool isC() const { return k == K::Const; }
};
typedef const Expr *E;

u128 maskw(unsigned w);
i128 sextw(u128 v, unsigned w);

E mkC(u128 v, unsigned w);
E mkSym(unsigned w, uint32_t *outid = nullptr);
uint32_t numSyms();
E symExpr(uint32_t id);
E mkBin(K k, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkF(K k, unsigned w, E a, E b = nullptr);
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(0, 1); }
E mkEq(E a, E b);
inline E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }

// model: symbol id -> value
struct Model {
  std::vector<u128> v;   // indexed by sym id, default 0
  uint64_t gen;
  Model();
  u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, u128 x);
  void touch();
};
u128 evalE(E e, const Model &m);
void collectSyms(E e, std::vector<uint32_t> &out);
std::string exprStr(E e, int depth = 6);
size_t numExprs();
