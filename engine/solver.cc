#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <unistd.h>

SolverStats gStats;
unsigned gRlimit = 0;
const char *gDumpDir = nullptr;
static Z3_context ctx;
static std::unordered_map<E, Z3_ast> tr;
static Z3_sort sorts[129];
static Z3_ast rne, rtz, rtn, rtp;
static bool usesFP;
static Z3_sort fp64, fp32;

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
  for (int i = 1; i <= 128; i++) { sorts[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sorts[i])); }
}
static void fpInit() {
  if (fp64) return;
  fp64 = Z3_mk_fpa_sort_double(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp64));
  fp32 = Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp32));
  rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
  rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
  rtn = Z3_mk_fpa_rtn(ctx); Z3_inc_ref(ctx, rtn);
  rtp = Z3_mk_fpa_rtp(ctx); Z3_inc_ref(ctx, rtp);
}
static Z3_ast bvc(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, sorts[w]);
  char buf[64]; int i = 63; buf[i] = 0;
  if (!v) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, buf + i, sorts[w]);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, bvc(1, 1), bvc(0, 1)); }
// width-1 expressions are also needed as Bool
static std::unordered_map<E, Z3_ast> trb;
static Z3_ast T(E e);
static Z3_ast TB(E e) {
  auto it = trb.find(e);
  if (it != trb.end()) return it->second;
  Z3_ast r;
  Z3_ast ab[2];
  switch (e->k) {
    case K::Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, TB(e->a), TB(e->b)) : Z3_mk_eq(ctx, T(e->a), T(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(ctx, T(e->a), T(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, T(e->a), T(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, T(e->a), T(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, T(e->a), T(e->b)); break;
    case K::And: ab[0] = TB(e->a); ab[1] = TB(e->b); r = Z3_mk_and(ctx, 2, ab); break;
    case K::Or: ab[0] = TB(e->a); ab[1] = TB(e->b); r = Z3_mk_or(ctx, 2, ab); break;
    case K::Xor: r = Z3_mk_xor(ctx, TB(e->a), TB(e->b)); break;
    case K::Not: r = Z3_mk_not(ctx, TB(e->a)); break;
    case K::Ite: r = Z3_mk_ite(ctx, TB(e->a), TB(e->b), TB(e->c)); break;
    default: r = Z3_mk_eq(ctx, T(e), bvc(1, 1)); break;
  }
  Z3_inc_ref(ctx, r);
  trb[e] = r;
  return r;
}
static Z3_ast toFP(E e) { fpInit(); usesFP = true; return Z3_mk_fpa_to_fp_bv(ctx, T(e), e->w == 64 ? fp64 : fp32); }
static Z3_ast T(E e) {
  auto it = tr.find(e);
  if (it != tr.end()) return it->second;
  Z3_ast r;
  if (e->w == 1 && ((e->k >= K::Eq && e->k <= K::Sle) || e->k == K::And || e->k == K::Or || e->k == K::Not || e->k == K::Xor || e->k == K::Ite)) {
    r = b2bv(TB(e));
  } else switch (e->k) {
    case K::Const: r = bvc(e->v, e->w); break;
    case K::Sym: { char n[32]; snprintf(n, 32, "s%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), sorts[e->w]); break; }
#define B(X, F) case K::X: r = F(ctx, T(e->a), T(e->b)); break;
    B(Add, Z3_mk_bvadd) B(Sub, Z3_mk_bvsub) B(Mul, Z3_mk_bvmul) B(UDiv, Z3_mk_bvudiv) B(SDiv, Z3_mk_bvsdiv)
    B(URem, Z3_mk_bvurem) B(SRem, Z3_mk_bvsrem) B(And, Z3_mk_bvand) B(Or, Z3_mk_bvor) B(Xor, Z3_mk_bvxor)
    B(Shl, Z3_mk_bvshl) B(LShr, Z3_mk_bvlshr) B(AShr, Z3_mk_bvashr) B(Concat, Z3_mk_concat)
#undef B
    case K::Not: r = Z3_mk_bvnot(ctx, T(e->a)); break;
    case K::Ite: r = Z3_mk_ite(ctx, TB(e->a), T(e->b), T(e->c)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, T(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, T(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, T(e->a)); break;
    default: {
      fpInit();
      usesFP = true;
      Z3_sort s = e->w == 64 ? fp64 : fp32;
      switch (e->k) {
        case K::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, toFP(e->a), toFP(e->b))); break;
        case K::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, toFP(e->a), toFP(e->b))); break;
        case K::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, toFP(e->a), toFP(e->b))); break;
        case K::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, toFP(e->a), toFP(e->b))); break;
        case K::FFloor: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rtn, toFP(e->a))); break;
        case K::FCeil: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rtp, toFP(e->a))); break;
        case K::FTrunc: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rtz, toFP(e->a))); break;
        case K::UToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, T(e->a), s)); break;
        case K::SToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, T(e->a), s)); break;
        case K::FToU: r = Z3_mk_fpa_to_ubv(ctx, rtz, toFP(e->a), e->w); break;
        case K::FToS: r = Z3_mk_fpa_to_sbv(ctx, rtz, toFP(e->a), e->w); break;
        case K::FExt: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->a), s)); break;
        case K::FOEq: r = b2bv(Z3_mk_fpa_eq(ctx, toFP(e->a), toFP(e->b))); break;
        case K::FOLt: r = b2bv(Z3_mk_fpa_lt(ctx, toFP(e->a), toFP(e->b))); break;
        case K::FOLe: r = b2bv(Z3_mk_fpa_leq(ctx, toFP(e->a), toFP(e->b))); break;
        case K::FUno: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, toFP(e->a)), Z3_mk_fpa_is_nan(ctx, toFP(e->b))}; r = b2bv(Z3_mk_or(ctx, 2, o)); break; }
        default: abort();
      }
    }
  }
  Z3_inc_ref(ctx, r);
  tr[e] = r;
  return r;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<uint64_t, CacheEnt> qcache;

Res PathCond::check(E c, Model *m, std::vector<uint32_t> *msyms) {
  if (c->isC()) {
    if (!c->v) return R_UNSAT;
    if (m) *m = cur;
    if (msyms) msyms->clear();
    return R_SAT;
  }
  auto kn = known.find(c);
  if (kn != known.end()) { if (!kn->second) return R_UNSAT; if (m) *m = cur; if (msyms) msyms->clear(); return R_SAT; }
  // slice
  std::vector<uint32_t> work, all;
  collectSyms(c, work);
  std::vector<char> seenC(cons.size(), 0);
  std::unordered_map<uint32_t, bool> seenS;
  std::vector<uint32_t> ci;
  for (auto s : work) seenS[s] = true;
  all = work;
  while (!work.empty()) {
    uint32_t s = work.back();
    work.pop_back();
    auto it = bySym.find(s);
    if (it == bySym.end()) continue;
    for (uint32_t i : it->second) {
      if (seenC[i]) continue;
      seenC[i] = 1;
      ci.push_back(i);
      for (uint32_t t : csyms[i]) if (!seenS[t]) { seenS[t] = true; work.push_back(t); all.push_back(t); }
    }
  }
  std::sort(ci.begin(), ci.end());
  std::vector<uint32_t> ids;
  for (auto i : ci) ids.push_back(cons[i]->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  uint64_t h = 1469598103934665603ULL;
  for (auto i : ids) { h ^= i + 0x9e3779b97f4a7c15ULL; h *= 1099511628211ULL; h ^= h >> 29; }
  h ^= (uint64_t)c->id * 0xbf58476d1ce4e5b9ULL; h *= 0x94d049bb133111ebULL;
  auto q = qcache.find(h);
  if (q != qcache.end()) {
    gStats.cachehits++;
    if (q->second.r == R_SAT) {
      if (m) { *m = cur; for (auto &p : q->second.m) m->set(p.first, p.second); m->touch(); }
      if (msyms) *msyms = all;
    }
    return q->second.r;
  }
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  usesFP = false;
  std::vector<Z3_ast> as;
  for (auto i : ci) as.push_back(TB(cons[i]));
  as.push_back(TB(c));
  // One incremental solver answers the many easy queries (bounded by a resource
  // limit); what it leaves open goes to a fresh bit-vector solver.
  static Z3_solver inc;
  static uint64_t incUses;
  if (inc && ++incUses > 4000) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; incUses = 0; }
  if (!inc) {
    inc = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, inc);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 400000);
    Z3_solver_set_params(ctx, inc, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_solver s = inc;
  Z3_solver_push(ctx, s);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  if (gDumpDir && (gStats.queries % 50) == 0) {
    char fn[512]; snprintf(fn, 512, "%s/q_%d_%llu.smt2", gDumpDir, (int)getpid(), (unsigned long long)gStats.queries);
    FILE *f = fopen(fn, "w"); if (f) { fputs(Z3_solver_to_string(ctx, s), f); fputs("(check-sat)\n", f); fclose(f); }
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_UNDEF) {
    Z3_solver_pop(ctx, s, 1);
    // FP terms may sit in the translation cache: use the generic solver if fp was ever initialised
    s = (fp64 ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")));
    Z3_solver_inc_ref(ctx, s);
    if (gRlimit) {
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), gRlimit);
      Z3_solver_set_params(ctx, s, p);
      Z3_params_dec_ref(ctx, p);
    }
    for (auto a : as) Z3_solver_assert(ctx, s, a);
    gStats.escalated++;
    r = Z3_solver_check(ctx, s);
  }
  CacheEnt ent;
  ent.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  gStats.queries++;
  if (r == Z3_L_TRUE) {
    gStats.sat++;
    Z3_model mod = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, mod);
    if (m) *m = cur;
    for (uint32_t id : all) {
      Z3_ast out;
      u128 val = 0;
      if (Z3_model_eval(ctx, mod, T(symExpr(id)), true, &out)) {
        uint64_t x;
        if (Z3_get_numeral_uint64(ctx, out, &x)) val = x;
        else {
          const char *str = Z3_get_numeral_string(ctx, out);
          for (; *str; str++) val = val * 10 + (*str - '0');
        }
      }
      ent.m.push_back({id, val});
      if (m) m->set(id, val);
    }
    if (m) m->touch();
    if (msyms) *msyms = all;
    Z3_model_dec_ref(ctx, mod);
  } else if (r == Z3_L_FALSE) gStats.unsat++;
  else { gStats.unknown++; fprintf(stderr, "solver unknown: %s\n", Z3_solver_get_reason_unknown(ctx, s)); }
  if (s == inc) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
  clock_gettime(CLOCK_MONOTONIC, &t1);
  gStats.ns += (t1.tv_sec - t0.tv_sec) * 1000000000ULL + (t1.tv_nsec - t0.tv_nsec);
  if (m && ent.r == R_SAT) {
    // guard against translation bugs: the model must satisfy the slice
    if (!evalE(c, *m)) { fprintf(stderr, "model mismatch on %s\n", exprStr(c).c_str()); abort(); }
  }
  qcache[h] = ent;
  return ent.r;
}

bool PathCond::may(E c, bool *unknown) {
  if (c->isC()) return c->v;
  if (evalE(c, cur)) return true;
  Res r = check(c, nullptr, nullptr);
  if (r == R_UNKNOWN && unknown) *unknown = true;
  return r == R_SAT;
}

void PathCond::add(E c, const Model *m, const std::vector<uint32_t> *ms) {
  if (c->isC()) { if (!c->v) contradiction = true; return; }
  if (c->k == K::And) { add(c->a, m, ms); add(c->b, m, ms); return; }
  if (!evalE(c, cur)) {
    if (m && ms) { for (uint32_t id : *ms) cur.set(id, m->get(id)); cur.touch(); }
    if (!evalE(c, cur)) {
      Model mm; std::vector<uint32_t> s;
      Res r = check(c, &mm, &s);
      if (r != R_SAT) { contradiction = true; return; }
      for (uint32_t id : s) cur.set(id, mm.get(id));
      cur.touch();
    }
  }
  if (known.count(c)) return;
  known[c] = true;
  known[mkNot(c)] = false;
  uint32_t i = cons.size();
  cons.push_back(c);
  csyms.emplace_back();
  collectSyms(c, csyms.back());
  for (auto s : csyms.back()) bySym[s].push_back(i);
}
