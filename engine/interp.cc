// sxe: symbolic executor for LLVM 18 bitcode.  States are processes: a feasible
// two-sided branch forks; the SMT solver (z3, QF_BV) decides feasibility of every
// side and every assertion / memory-safety / UB side condition.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
using namespace llvm;

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<int> timeout;
  std::atomic<uint64_t> started, finished, paths, infeasible, errpaths, instrs, queries, sat, unsat, unknown, hits, ns, forks;
  std::atomic<uint64_t> asserts, memchecks, limit, engineErr, obs;
  std::atomic<int> nerr, nwit;
  std::atomic<uint64_t> errKeys[256];
  std::atomic<int> errCnt[256];
  std::atomic<uint32_t> reach[512];
  std::atomic<uint64_t> maxDepth, maxCons, maxInstr;
  uint8_t cov[1 << 20];
};
static Shared *S;
static std::string outDir = ".";
static double deadline = 0;
static int maxErrors = 8;
static uint64_t maxInstr = 20000000;
static int maxWitness = 24;
static int preemptBound = 2;
static uint64_t maxAlloc = 1 << 20;
static bool verbose = false;
static std::string repoPrefix = "/repo/";
static std::vector<std::string> reachLabels;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- values
struct Val {
  E e = nullptr;
  std::vector<E> *agg = nullptr;   // leaked arena-style; values are immutable
};
static Val V(E e) { Val v; v.e = e; return v; }
static Val VA(std::vector<E> a) { Val v; v.agg = new std::vector<E>(std::move(a)); return v; }

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR };
struct MemObj {
  uint64_t base, cap;
  E size = nullptr;        // symbolic size (64-bit) or null
  ObjKind kind;
  bool ro = false, freed = false, ext = false, model = false;
  uint32_t serial = 0;
  std::string name;
  std::vector<uint8_t> conc;
  std::vector<E> sym;      // empty or cap
  std::vector<bool> uninit;
};
static std::map<uint64_t, MemObj *> objs;
static uint64_t nextAddr = 0x10000000;
static uint32_t nextSerial = 0;
static int64_t liveHeap = 0;
static MemObj *lastObj = nullptr;

struct FnInfo {
  Function *F;
  DenseMap<const Value *, unsigned> slot;
  unsigned n = 0;
  int builtin = -1;
};
struct Frame {
  FnInfo *fi;
  BasicBlock *bb, *prev = nullptr;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<MemObj *> allocas;
  std::vector<Val> varargs;
};
typedef std::vector<uint32_t> VC;
struct Thread {
  std::vector<Frame> st;
  bool done = false;
  uint64_t waitMutex = 0;
  bool waitShared = false;
  const Instruction *yielded = nullptr;
  int waitJoin = -1;
  VC vc;
  uint64_t entry = 0;
};
static std::vector<Thread *> threads;
static int curT = 0;
static int preemptions = 0;
struct MutexSt { int owner = -1; VC vc, rvc; std::multiset<int> readers; };
static std::map<uint64_t, MutexSt> mutexes;
struct Shadow { int wt = -1; uint32_t wc = 0; VC r; const Instruction *wi = nullptr; bool watomic = false; };
static std::unordered_map<uint64_t, Shadow> shadow;
static std::unordered_map<uint64_t, VC> atomVC;

static PathCond PC;
static uint64_t pathInstrs = 0, pathForks = 0;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fninfo;
static std::unordered_map<uint64_t, Function *> fnAt;
static DenseMap<const GlobalValue *, uint64_t> gaddr;
static DenseMap<const Constant *, Val> ccache;
static std::unordered_map<const Instruction *, uint32_t> covIdx;
static std::vector<const Instruction *> covInst;

struct InLog { std::string name; std::vector<E> bytes; };
static std::vector<InLog> inputs;
static std::vector<std::pair<std::string, E>> observations;

[[noreturn]] static void endProcess();
static bool holdsToken = true;

static void flushStats() {
  S->queries += gStats.queries; S->sat += gStats.sat; S->unsat += gStats.unsat; S->unknown += gStats.unknown;
  S->hits += gStats.cachehits; S->ns += gStats.ns;
  gStats = SolverStats();
  S->instrs += pathInstrs;
}

static uint64_t instrBase = 0;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return "?";
  auto *sc = cast<DIScope>(d.getScope());
  std::string f = sc->getFilename().str();
  if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f;
  return f + ":" + std::to_string(d.getLine());
}
static std::string stackStr(bool shortKey) {
  std::string s;
  Thread *t = threads[curT];
  int n = 0;
  for (int i = (int)t->st.size() - 1; i >= 0; i--) {
    Frame &f = t->st[i];
    const Instruction *I = nullptr;
    auto it = f.it;
    if (it != f.bb->begin()) I = &*std::prev(it);
    std::string dn = demangle(f.fi->F->getName().str());
    if (dn.size() > 90) dn = dn.substr(0, 90) + "...";
    std::string loc = locOf(I);
    if (shortKey) {
      // innermost repo location identifies the site
      if (loc.compare(0, repoPrefix.size(), repoPrefix) == 0) return loc;
      continue;
    }
    s += "  #" + std::to_string(n++) + " " + dn + " at " + loc + "\n";
    if (n > 24) break;
  }
  if (shortKey) {
    return t->st.empty() ? "?" : t->st.back().fi->F->getName().str();
  }
  return s;
}
static void writeInputs(FILE *f, const Model &m) {
  for (auto &in : inputs) {
    fprintf(f, "IN %s ", in.name.c_str());
    if (in.bytes.empty()) fputc('-', f);
    for (E b : in.bytes) fprintf(f, "%02x", (unsigned)(uint64_t)evalE(b, m));
    fputc('\n', f);
  }
}
// Record an error whose condition is witnessed by model m.
static void reportError(const std::string &kind, const std::string &msg, const Model &m) {
  std::string key = kind + "|" + msg + "|" + stackStr(true);
  uint64_t h = std::hash<std::string>()(key) | 1;
  int slot = -1;
  for (int i = 0; i < 256; i++) {
    uint64_t exp = 0;
    uint64_t cur = S->errKeys[i].load();
    if (cur == h) { slot = i; break; }
    if (cur == 0 && S->errKeys[i].compare_exchange_strong(exp, h)) { slot = i; break; }
    if (S->errKeys[i].load() == h) { slot = i; break; }
  }
  int c = slot >= 0 ? S->errCnt[slot].fetch_add(1) : 0;
  if (c >= 3) return;
  int n = S->nerr.fetch_add(1);
  char fn[64];
  snprintf(fn, 64, "/err_%04d.txt", n);
  FILE *f = fopen((outDir + fn).c_str(), "w");
  if (f) {
    fprintf(f, "KIND %s\nMSG %s\nSITE %s\n", kind.c_str(), msg.c_str(), stackStr(true).c_str());
    writeInputs(f, m);
    fprintf(f, "STACK\n%s", stackStr(false).c_str());
    fclose(f);
  }
  if (verbose) fprintf(stderr, "[err] %s %s at %s\n", kind.c_str(), msg.c_str(), stackStr(true).c_str());
  if (n + 1 >= maxErrors) S->stop = 1;
}
[[noreturn]] static void engineError(const std::string &msg) {
  fprintf(stderr, "sxe engine error: %s\n%s", msg.c_str(), threads.empty() ? "" : stackStr(false).c_str());
  S->engineErr++;
  FILE *f = fopen((outDir + "/engine_error.txt").c_str(), "a");
  if (f) { fprintf(f, "%s\n%s", msg.c_str(), threads.empty() ? "" : stackStr(false).c_str()); fclose(f); }
  S->stop = 1;
  endProcess();
}
static void maxUpd(std::atomic<uint64_t> &a, uint64_t v) { uint64_t c = a.load(); while (v > c && !a.compare_exchange_weak(c, v)) {} }

[[noreturn]] static void endPath(const char *why) {
  if (!strcmp(why, "done")) {
    uint64_t idx = S->paths.fetch_add(1);
    bool w = idx < 6 || ((idx * 2654435761u) % 16) == 3;
    if (w && !S->stop && S->nwit.load() < maxWitness) {
      int n = S->nwit.fetch_add(1);
      if (n < maxWitness) {
        char fn[64];
        snprintf(fn, 64, "/wit_%04d.txt", n);
        FILE *f = fopen((outDir + fn).c_str(), "w");
        if (f) {
          writeInputs(f, PC.cur);
          for (auto &o : observations) fprintf(f, "OBS %s %llx\n", o.first.c_str(), (unsigned long long)(uint64_t)evalE(o.second, PC.cur));
          fclose(f);
        }
      }
    }
  } else if (!strcmp(why, "infeasible")) S->infeasible++;
  else if (!strcmp(why, "error")) S->errpaths++;
  maxUpd(S->maxDepth, pathForks);
  maxUpd(S->maxCons, PC.cons.size());
  maxUpd(S->maxInstr, instrBase + pathInstrs);
  endProcess();
}
static pid_t rootPid;
[[noreturn]] static void endProcess() {
  flushStats();
  S->finished++;
  if (getpid() == rootPid) {
    if (holdsToken) S->tokens++;
    int st;
    while (true) {
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0 && errno == ECHILD) break;
    }
    extern void rootFinish();
    rootFinish();
    fflush(nullptr);
    _exit(0);
  }
  if (holdsToken) S->tokens++;
  _exit(0);
}

// Returns true in the child.
static bool spawn() {
  if (S->stop || (deadline && now() > deadline)) {
    if (!S->stop) { S->timeout = 1; S->stop = 1; }
    endProcess();
  }
  fflush(nullptr);
  bool tok = false;
  int t = S->tokens.load();
  while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; }
  S->started++;
  S->forks++;
  pid_t p;
  int tries = 0;
  while ((p = fork()) < 0 && tries++ < 200) usleep(20000);
  if (p < 0) { S->started--; engineError("fork failed"); }
  if (p == 0) {
    gStats = SolverStats();
    instrBase += pathInstrs;
    pathInstrs = 0;
    holdsToken = tok;
    return true;
  }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  if (S->stop) endProcess();
  return false;
}
static void unknownSolver() { S->unknown++; S->limit++; }

// conds: mutually exclusive, exhaustive. Returns the index this process takes.
static unsigned forkOn(const std::vector<E> &conds) {
  unsigned mine = conds.size();
  for (unsigned i = 0; i < conds.size(); i++) if (evalE(conds[i], PC.cur)) { mine = i; break; }
  if (mine == conds.size()) engineError("forkOn: conditions not exhaustive");
  bool others = false;
  for (unsigned i = 0; i < conds.size(); i++) {
    if (i == mine || (conds[i]->isC() && !conds[i]->v)) continue;
    Model m;
    std::vector<uint32_t> ms;
    Res r = PC.check(conds[i], &m, &ms);
    if (r == R_UNSAT) continue;
    others = true;
    if (r == R_UNKNOWN) { S->limit++; continue; }
    pathForks++;
    if (spawn()) {
      PC.add(conds[i], &m, &ms);
      if (PC.contradiction) endPath("infeasible");
      return i;
    }
  }
  if (others) PC.add(conds[mine]);
  else if (!conds[mine]->isC()) { PC.known[conds[mine]] = true; PC.known[mkNot(conds[mine])] = false; }
  return mine;
}
static bool branch(E c) {
  if (c->isC()) return c->v;
  auto k = PC.known.find(c);
  if (k != PC.known.end()) return k->second;
  return forkOn({c, mkNot(c)}) == 0;
}
// cond must hold on this path: report a counterexample if it can fail, then assume it.
static void mustHold(E cond, const std::string &kind, const std::string &msg) {
  if (cond->isC() && cond->v) return;
  if (!cond->isC()) {
    auto k = PC.known.find(cond);
    if (k != PC.known.end() && k->second) return;
  }
  E nc = mkNot(cond);
  if (evalE(nc, PC.cur)) reportError(kind, msg, PC.cur);
  else {
    Model m;
    std::vector<uint32_t> ms;
    Res r = PC.check(nc, &m, &ms);
    if (r == R_UNKNOWN) S->limit++;
    if (r == R_UNSAT) { if (!cond->isC()) { PC.known[cond] = true; PC.known[nc] = false; } return; }
    if (r == R_SAT) reportError(kind, msg, m);
  }
  if (S->stop) endPath("error");
  if (cond->isC()) endPath("error");
  if (!PC.may(cond)) endPath("error");
  PC.add(cond);
  if (PC.contradiction) endPath("error");
}
[[noreturn]] static void fatal(const std::string &kind, const std::string &msg) {
  reportError(kind, msg, PC.cur);
  endPath("error");
}
static uint64_t concretize(E e) {
  if (e->isC()) return (uint64_t)e->v;
  while (true) {
    u128 v = evalE(e, PC.cur);
    E c = mkEq(e, mkC(v, e->w));
    if (branch(c)) return (uint64_t)evalE(e, PC.cur);
  }
}
// Largest value of e on this path (bounded search).
static uint64_t maxValue(E e, uint64_t cap) {
  if (e->isC()) return (uint64_t)e->v;
  uint64_t lo = (uint64_t)evalE(e, PC.cur);
  if (lo > cap) return lo;
  if (PC.may(mkBin(K::Ult, mkC(cap, e->w), e))) return cap + 1;
  uint64_t hi = cap;
  while (lo < hi) {
    uint64_t mid = lo + (hi - lo + 1) / 2;
    if (PC.may(mkBin(K::Ule, mkC(mid, e->w), e))) lo = mid; else hi = mid - 1;
  }
  return lo;
}
static uint64_t minValue(E e) {
  if (e->isC()) return (uint64_t)e->v;
  uint64_t hi = (uint64_t)evalE(e, PC.cur), lo = 0;
  while (lo < hi) {
    uint64_t mid = lo + (hi - lo) / 2;
    if (PC.may(mkBin(K::Ule, e, mkC(mid, e->w)))) hi = mid; else lo = mid + 1;
  }
  return lo;
}

// ---------------------------------------------------------------- memory
static MemObj *newObj(uint64_t cap, ObjKind k, const std::string &name, uint64_t align = 16, bool zero = false) {
  MemObj *o = new MemObj;
  if (align < 16) align = 16;
  nextAddr = (nextAddr + align - 1) / align * align;
  o->base = nextAddr;
  o->cap = cap;
  o->kind = k;
  o->name = name;
  o->serial = ++nextSerial;
  o->conc.assign(cap, 0);
  if (!zero) o->uninit.assign(cap, true);
  nextAddr += cap + 128;
  objs[o->base] = o;
  return o;
}
static MemObj *findObj(uint64_t a) {
  if (lastObj && a >= lastObj->base && a < lastObj->base + lastObj->cap) return lastObj;
  auto it = objs.upper_bound(a);
  if (it == objs.begin()) return nullptr;
  --it;
  MemObj *o = it->second;
  if (a < o->base + o->cap || (o->cap == 0 && a == o->base)) return lastObj = o;
  return nullptr;
}
static MemObj *nearObj(uint64_t a) {
  auto it = objs.upper_bound(a);
  if (it == objs.begin()) return nullptr;
  --it;
  MemObj *o = it->second;
  if (a < o->base + o->cap + 128) return o;
  return nullptr;
}
static E rdByte(MemObj *o, uint64_t i) {
  if (!o->uninit.empty() && o->uninit[i]) {
    o->uninit[i] = false;
    if (o->sym.empty()) o->sym.assign(o->cap, nullptr);
    o->sym[i] = mkSym(8);
  }
  if (!o->sym.empty() && o->sym[i]) return o->sym[i];
  return mkC(o->conc[i], 8);
}
static void wrByte(MemObj *o, uint64_t i, E b) {
  if (!o->uninit.empty()) o->uninit[i] = false;
  if (b->isC()) {
    o->conc[i] = (uint8_t)b->v;
    if (!o->sym.empty()) o->sym[i] = nullptr;
  } else {
    if (o->sym.empty()) o->sym.assign(o->cap, nullptr);
    o->sym[i] = b;
  }
}
static bool isUninit(MemObj *o, uint64_t i) { return !o->uninit.empty() && o->uninit[i]; }

static void raceAccess(MemObj *o, uint64_t off, uint64_t n, bool write, bool atomic = false);

struct Acc { MemObj *o; E off; };
// find an Ite deep in an Add chain with pointer-like constants
static E findIte(E e, int d = 0) {
  if (d > 6) return nullptr;
  if (e->k == K::Ite) return e;
  if (e->k == K::Add || e->k == K::Sub) {
    if (E r = findIte(e->a, d + 1)) return r;
    return findIte(e->b, d + 1);
  }
  return nullptr;
}
static std::string accMsg(const char *rw, const char *what) { return std::string(rw) + ": " + what; }

// Resolve an access of n bytes (n: 64-bit expr). n==0 allowed (no check).
static Acc resolve(E addr, E n, bool write, const char *what) {
  for (int iter = 0; iter < 64 && !addr->isC(); iter++) {
    E ite = findIte(addr);
    // only split on pointer-valued selections
    if (!ite || ite->w != 64) break;
    bool p1 = ite->b->isC() && (uint64_t)ite->b->v >= 4096, p2 = ite->c->isC() && (uint64_t)ite->c->v >= 4096;
    bool n1 = ite->b->isC() && ite->b->v == 0 && p2, n2 = ite->c->isC() && ite->c->v == 0 && p1;
    if (!((p1 && p2) || n1 || n2 || ite->b->k == K::Ite || ite->c->k == K::Ite)) break;
    bool t = branch(ite->a);
    // rebuild addr with the chosen arm
    std::function<E(E)> sub = [&](E x) -> E {
      if (x == ite) return t ? ite->b : ite->c;
      if (x->k == K::Add || x->k == K::Sub) return mkBin(x->k, sub(x->a), sub(x->b));
      return x;
    };
    addr = sub(addr);
  }
  if (n->isC() && n->v == 0) return {nullptr, nullptr};
  if (!n->isC()) {
    // zero-length accesses touch nothing
    E nz = mkNot(mkEq(n, mkC(0, 64)));
    if (!branch(nz)) return {nullptr, nullptr};
  }
  const char *rw = write ? "write" : "read";
  MemObj *o = nullptr;
  if (addr->isC()) {
    uint64_t a = (uint64_t)addr->v;
    o = findObj(a);
    if (!o) {
      if (a < 4096) fatal("null-deref", accMsg(rw, what));
      MemObj *q = nearObj(a);
      if (fnAt.count(a)) fatal("memory", accMsg(rw, "code address"));
      fatal("memory", accMsg(rw, q ? (q->freed ? "use after free" : "out of bounds") : "wild pointer"));
    }
  } else {
    // candidates by constant part (the object there, the next one above: negative
    // displacements) and by the current model; the first one that the access always fits
    std::vector<MemObj *> cand;
    auto put = [&](MemObj *q) { if (q && std::find(cand.begin(), cand.end(), q) == cand.end()) cand.push_back(q); };
    uint64_t cur = (uint64_t)evalE(addr, PC.cur);
    if (addr->k == K::Add && addr->b->isC()) {
      uint64_t c = (uint64_t)addr->b->v;
      put(findObj(c));
      put(findObj(cur));
      auto it = objs.upper_bound(c);
      if (it != objs.end() && it->second->base - c < 65536) put(it->second);
      put(nearObj(c));
    }
    put(findObj(cur));
    put(nearObj(cur));
    if (cand.size() > 1) {
      MemObj *some = nullptr;
      for (MemObj *q : cand) {
        E f = mkBin(K::Sub, addr, mkC(q->base, 64));
        E z = q->size ? q->size : mkC(q->cap, 64);
        E fits = mkAnd1(mkBin(K::Ule, f, z), mkBin(K::Ule, n, mkBin(K::Sub, z, f)));
        if (!some && evalE(fits, PC.cur)) some = q;
        if (evalE(fits, PC.cur) && !PC.may(mkNot(fits))) { o = q; break; }
      }
      if (!o) o = some;
    }
    if (!o && !cand.empty()) o = cand[0];
    if (!o) {
      uint64_t a = (uint64_t)evalE(addr, PC.cur);
      fatal(a < 4096 ? "null-deref" : "memory", accMsg(rw, a < 4096 ? what : "wild pointer"));
    }
  }
  if (o->freed) fatal("memory", accMsg(rw, "use after free"));
  if (write && o->ro) fatal("memory", accMsg(rw, "write to constant"));
  E off = mkBin(K::Sub, addr, mkC(o->base, 64));
  E size = o->size ? o->size : mkC(o->cap, 64);
  // off <= size && n <= size - off
  E ok = mkAnd1(mkBin(K::Ule, off, size), mkBin(K::Ule, n, mkBin(K::Sub, size, off)));
  S->memchecks++;
  mustHold(ok, "memory", accMsg(rw, "out of bounds"));
  return {o, off};
}

static E loadBytes(E addr, uint64_t n, const char *what = "load") {
  Acc a = resolve(addr, mkC(n, 64), false, what);
  MemObj *o = a.o;
  if (a.off->isC()) {
    uint64_t f = (uint64_t)a.off->v;
    raceAccess(o, f, n, false);
    // fast path
    bool allc = true;
    for (uint64_t i = 0; i < n; i++)
      if (isUninit(o, f + i) || (!o->sym.empty() && o->sym[f + i])) { allc = false; break; }
    if (allc) {
      u128 v = 0;
      for (uint64_t i = n; i-- > 0;) v = (v << 8) | o->conc[f + i];
      return mkC(v, n * 8);
    }
    E r = rdByte(o, f);
    for (uint64_t i = 1; i < n; i++) r = mkConcat(rdByte(o, f + i), r);
    return r;
  }
  uint64_t lo = 0, hi = o->cap - n;
  if (hi > 64) { hi = std::min(hi, maxValue(a.off, hi)); lo = minValue(a.off); }
  if (hi - lo > 20000) { uint64_t f = concretize(a.off); return loadBytes(mkC(o->base + f, 64), n, what); }
  raceAccess(o, lo, hi - lo + n, false);
  E r = nullptr;
  for (uint64_t f = hi + 1; f-- > lo;) {
    E c = mkEq(a.off, mkC(f, 64));
    if (c->isC() && !c->v) { if (f == lo) break; continue; }
    E b = rdByte(o, f);
    for (uint64_t i = 1; i < n; i++) b = mkConcat(rdByte(o, f + i), b);
    r = r ? mkIte(c, b, r) : b;
    if (f == lo) break;
  }
  if (!r) engineError("symbolic load: no position");
  return r;
}
static void storeBytes(E addr, E val, const char *what = "store") {
  uint64_t n = (val->w + 7) / 8;
  if (val->w % 8) val = mkZExt(val, n * 8);
  Acc a = resolve(addr, mkC(n, 64), true, what);
  MemObj *o = a.o;
  if (a.off->isC()) {
    uint64_t f = (uint64_t)a.off->v;
    raceAccess(o, f, n, true);
    for (uint64_t i = 0; i < n; i++) wrByte(o, f + i, mkExtract(val, i * 8, 8));
    return;
  }
  uint64_t lo = 0, hi = o->cap - n;
  if (hi > 64) { hi = std::min(hi, maxValue(a.off, hi)); lo = minValue(a.off); }
  if (hi - lo > 20000) { uint64_t f = concretize(a.off); storeBytes(mkC(o->base + f, 64), val, what); return; }
  raceAccess(o, lo, hi - lo + n, true);
  for (uint64_t f = lo; f <= hi; f++) {
    E c = mkEq(a.off, mkC(f, 64));
    if (c->isC() && !c->v) continue;
    for (uint64_t i = 0; i < n; i++) wrByte(o, f + i, mkIte(c, mkExtract(val, i * 8, 8), rdByte(o, f + i)));
  }
}
// read byte values of [addr, addr+n) where position i is meaningful only if i<n
static std::vector<E> gather(E addr, E n, uint64_t cap, const char *what) {
  std::vector<E> r;
  Acc a = resolve(addr, n, false, what);
  if (!a.o) return r;
  uint64_t off = a.off->isC() ? (uint64_t)a.off->v : concretize(a.off);
  uint64_t m = std::min(cap, a.o->cap - off);
  raceAccess(a.o, off, m, false);
  r.reserve(m);
  for (uint64_t i = 0; i < m; i++) {
    if (isUninit(a.o, off + i)) r.push_back(nullptr);   // copy uninit-ness lazily
    else r.push_back(rdByte(a.o, off + i));
  }
  return r;
}
static void scatter(E addr, E n, const std::vector<E> &bytes, const char *what) {
  Acc a = resolve(addr, n, true, what);
  if (!a.o) return;
  uint64_t off = a.off->isC() ? (uint64_t)a.off->v : concretize(a.off);
  uint64_t m = std::min((uint64_t)bytes.size(), a.o->cap - off);
  if (n->isC()) m = std::min(m, (uint64_t)n->v);
  raceAccess(a.o, off, m, true);
  uint64_t mn = n->isC() ? m : 0;
  for (uint64_t i = 0; i < m; i++) {
    E b = bytes[i];
    if (!b) {
      if (n->isC()) { if (a.o->uninit.empty()) a.o->uninit.assign(a.o->cap, false); a.o->uninit[off + i] = true; if (!a.o->sym.empty()) a.o->sym[off + i] = nullptr; continue; }
      b = mkSym(8);
    }
    if (i < mn) wrByte(a.o, off + i, b);
    else {
      E c = mkBin(K::Ult, mkC(i, 64), n);
      if (isUninit(a.o, off + i)) wrByte(a.o, off + i, b);  // old value arbitrary; choosing b there only narrows an arbitrary value
      else wrByte(a.o, off + i, mkIte(c, b, rdByte(a.o, off + i)));
    }
  }
}
static uint64_t capOf(E n, const char *what) {
  if (n->isC()) return (uint64_t)n->v;
  uint64_t m = maxValue(n, maxAlloc * 4);
  return m;
}
static void doCopy(E dst, E src, E n) {
  if (n->isC() && n->v == 0) return;
  uint64_t cap = capOf(n, "memcpy");
  if (n->isC() && cap > (1u << 26)) cap = 1u << 26;
  std::vector<E> b = gather(src, n, cap, "memcpy source");
  // gather may have forked on n==0 / bounds; re-simplify
  scatter(dst, n, b, "memcpy destination");
}
static void doSet(E dst, E val, E n) {
  if (n->isC() && n->v == 0) return;
  Acc a = resolve(dst, n, true, "memset");
  if (!a.o) return;
  uint64_t off = a.off->isC() ? (uint64_t)a.off->v : concretize(a.off);
  uint64_t cap = n->isC() ? (uint64_t)n->v : std::min(capOf(n, "memset"), a.o->cap - off);
  raceAccess(a.o, off, cap, true);
  E b = mkExtract(val, 0, 8);
  for (uint64_t i = 0; i < cap; i++) {
    if (n->isC() || isUninit(a.o, off + i)) wrByte(a.o, off + i, b);
    else wrByte(a.o, off + i, mkIte(mkBin(K::Ult, mkC(i, 64), n), b, rdByte(a.o, off + i)));
  }
}
static E doCmp(E p, E q, E n, bool eqOnly) {
  if (n->isC() && n->v == 0) return mkC(0, 32);
  uint64_t cap = capOf(n, "memcmp");
  std::vector<E> a = gather(p, n, cap, "memcmp"), b = gather(q, n, cap, "memcmp");
  size_t m = std::min(a.size(), b.size());
  if (!n->isC() && m == 0) return mkC(0, 32);
  for (size_t i = 0; i < m; i++) { if (!a[i]) a[i] = mkSym(8); if (!b[i]) b[i] = mkSym(8); }
  if (eqOnly) {
    E ok = mkTrue();
    for (size_t i = 0; i < m; i++) {
      E e = mkEq(a[i], b[i]);
      if (!n->isC()) e = mkOr1(mkBin(K::Ule, n, mkC(i, 64)), e);
      ok = mkAnd1(ok, e);
    }
    return mkIte(ok, mkC(0, 32), mkC(1, 32));
  }
  E r = mkC(0, 32);
  for (size_t i = m; i-- > 0;) {
    E e = mkEq(a[i], b[i]);
    E d = mkIte(mkBin(K::Ult, a[i], b[i]), mkC((u128)-1, 32), mkC(1, 32));
    E t = mkIte(e, r, d);
    r = n->isC() ? t : mkIte(mkBin(K::Ule, n, mkC(i, 64)), mkC(0, 32), t);
  }
  return r;
}
static E doAlloc(E n, ObjKind k, bool zero, uint64_t align = 16) {
  uint64_t cap;
  E size = nullptr;
  if (n->isC()) {
    cap = (uint64_t)n->v;
    if (cap > (1ull << 26)) fatal("alloc", "allocation of unreasonable size");
  } else {
    cap = maxValue(n, maxAlloc);
    if (cap > maxAlloc) {
      mustHold(mkBin(K::Ule, n, mkC(maxAlloc, 64)), "alloc", "allocation of unreasonable size");
      cap = maxAlloc;
    }
    if (minValue(n) != cap) size = n;
  }
  MemObj *o = newObj(cap, k, "heap", align, zero);
  o->size = size;
  liveHeap++;
  return mkC(o->base, 64);
}
static void doFree(E p, ObjKind k) {
  uint64_t a = concretize(p);
  if (!a) return;
  MemObj *o = findObj(a);
  if (!o) { auto it = objs.find(a); if (it != objs.end()) o = it->second; }
  if (!o) fatal("memory", "free of invalid pointer");
  if (o->freed) fatal("memory", "double free");
  if (o->base != a) fatal("memory", "free of interior pointer");
  if (o->kind == OK_STACK || o->kind == OK_GLOBAL) fatal("memory", "free of non-heap pointer");
  if (o->kind != k) fatal("memory", "mismatched allocation and deallocation");
  raceAccess(o, 0, o->cap, true);
  o->freed = true;
  liveHeap--;
  std::vector<uint8_t>().swap(o->conc);
  std::vector<E>().swap(o->sym);
  std::vector<bool>().swap(o->uninit);
  o->conc.assign(o->cap, 0);
}

// ---------------------------------------------------------------- races / threads
static void raceAccess(MemObj *o, uint64_t off, uint64_t n, bool write, bool atomic) {
  if (threads.size() < 2) return;
  if (o->model) return;   // bookkeeping of the models and harnesses, no memory of the program
  Thread *t = threads[curT];
  for (uint64_t i = 0; i < n; i++) {
    Shadow &s = shadow[o->base + off + i];
    if (s.wt >= 0 && s.wt != curT) {
      uint32_t seen = (size_t)s.wt < t->vc.size() ? t->vc[s.wt] : 0;
      if (s.wc > seen && !(atomic && s.watomic)) fatal("race", write ? "write/write data race" : "write/read data race");
    }
    if (write) {
      for (size_t j = 0; j < s.r.size(); j++) {
        if ((int)j == curT || !s.r[j]) continue;
        uint32_t seen = j < t->vc.size() ? t->vc[j] : 0;
        if (s.r[j] > seen && !atomic) fatal("race", "read/write data race");
      }
      s.wt = curT; s.wc = t->vc[curT]; s.watomic = atomic;
      s.r.clear();
    } else if (!atomic) {
      if (s.r.size() < threads.size()) s.r.resize(threads.size(), 0);
      s.r[curT] = t->vc[curT];
    }
  }
}
static void vcJoin(VC &a, const VC &b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static bool runnable(int i) {
  Thread *t = threads[i];
  if (t->done) return false;
  if (t->waitMutex) {
    MutexSt &m = mutexes[t->waitMutex];
    if (m.owner >= 0 || (!t->waitShared && !m.readers.empty())) return false;
  }
  if (t->waitJoin >= 0 && !threads[t->waitJoin]->done) return false;
  return true;
}
// pick the thread to run next; voluntary = current thread could continue
static void schedule(const char *what = "sched") {
  std::vector<int> r;
  bool curOk = runnable(curT);
  for (int i = 0; i < (int)threads.size(); i++) if (runnable(i)) r.push_back(i);
  if (r.empty()) fatal("deadlock", "no runnable thread");
  if (curOk && (r.size() == 1 || preemptions >= preemptBound)) return;
  if (!curOk && r.size() == 1) { curT = r[0]; return; }
  uint32_t id;
  E s = mkSym(8, &id);
  inputs.push_back({what, {s}});
  std::vector<E> conds;
  E none = mkTrue();
  // prefer staying on the current thread
  for (int i : r) { E c = mkEq(s, mkC(i, 8)); conds.push_back(c); none = mkAnd1(none, mkNot(c)); }
  PC.cur.set(id, curOk ? curT : r[0]);
  PC.add(mkNot(none));
  unsigned k = forkOn(conds);
  if (curOk && r[k] != curT) preemptions++;
  curT = r[k];
}

// ---------------------------------------------------------------- constants
static unsigned bits(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  engineError("unsupported scalar type");
}
static void leaves(Type *t, std::vector<std::pair<uint64_t, Type *>> &out, uint64_t off) {
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), out, off + sl->getElementOffset(i));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out, off + i * es);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), out, off + i * es);
  } else out.push_back({off, t});
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned numLeaves(Type *t) { std::vector<std::pair<uint64_t, Type *>> l; leaves(t, l, 0); return l.size(); }

static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *al = dyn_cast<GlobalAlias>(g)) {
    if (auto *b = dyn_cast<GlobalValue>(al->getAliasee()->stripPointerCasts())) return gaddr[g] = addrOf(b);
  }
  if (auto *f = dyn_cast<Function>(g)) {
    static uint64_t nf = 0x100000;
    uint64_t a = nf; nf += 16;
    fnAt[a] = const_cast<Function *>(f);
    return gaddr[g] = a;
  }
  // external variable: opaque storage
  MemObj *o = newObj(256, OK_GLOBAL, g->getName().str(), 16, true);
  o->ext = true;
  return gaddr[g] = o->base;
}
static Val constVal(const Constant *c);
static Val binop(unsigned op, Type *ty, Val a, Val b);
static Val castop(unsigned op, Type *from, Type *to, Val a);
static E icmp(CmpInst::Predicate p, E a, E b);

static u128 apToU(const APInt &a) {
  unsigned w = a.getBitWidth();
  if (w > 128) engineError("integer constant wider than 128 bits");
  u128 v = a.getRawData()[0];
  if (w > 64) v |= (u128)a.getRawData()[1] << 64;
  return v;
}
static E gepOff(const GEPOperator *g, const std::function<E(const Value *)> &get) {
  E off = mkC(0, 64);
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      off = mkBin(K::Add, off, mkC(DL->getStructLayout(st)->getElementOffset(f), 64));
    } else {
      uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
      E i = get(idx);
      if (i->w < 64) i = mkSExt(i, 64);
      else if (i->w > 64) i = mkExtract(i, 0, 64);
      off = mkBin(K::Add, off, mkBin(K::Mul, i, mkC(es, 64)));
    }
  }
  return off;
}
static Val constVal(const Constant *c) {
  auto it = ccache.find(c);
  if (it != ccache.end()) return it->second;
  Val r;
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) r = V(mkC(apToU(ci->getValue()), ci->getBitWidth()));
  else if (isa<ConstantPointerNull>(c)) r = V(mkC(0, 64));
  else if (auto *cf = dyn_cast<ConstantFP>(c)) r = V(mkC(apToU(cf->getValueAPF().bitcastToAPInt()), bits(t)));
  else if (auto *gv = dyn_cast<GlobalValue>(c)) r = V(mkC(addrOf(gv), 64));
  else if (isa<PoisonValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (isAgg(t)) {
      std::vector<std::pair<uint64_t, Type *>> l; leaves(t, l, 0);
      std::vector<E> v; for (auto &p : l) v.push_back(mkC(0, bits(p.second)));
      r = VA(v);
    } else r = V(mkC(0, bits(t)));
  } else if (isa<UndefValue>(c)) {
    if (isAgg(t)) {
      std::vector<std::pair<uint64_t, Type *>> l; leaves(t, l, 0);
      std::vector<E> v; for (auto &p : l) v.push_back(mkSym(bits(p.second)));
      return VA(v);
    }
    return V(mkSym(bits(t)));
  } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<E> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)).e);
    r = VA(v);
  } else if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<E> v;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      Val x = constVal(cast<Constant>(ca->getOperand(i)));
      if (x.agg) v.insert(v.end(), x.agg->begin(), x.agg->end()); else v.push_back(x.e);
    }
    r = VA(v);
  } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned op = ce->getOpcode();
    if (op == Instruction::GetElementPtr) {
      auto *g = cast<GEPOperator>(ce);
      E b = constVal(cast<Constant>(g->getPointerOperand())).e;
      r = V(mkBin(K::Add, b, gepOff(g, [](const Value *v) { return constVal(cast<Constant>(v)).e; })));
    } else if (Instruction::isCast(op)) {
      r = castop(op, ce->getOperand(0)->getType(), t, constVal(ce->getOperand(0)));
    } else if (op == Instruction::ICmp) {
      r = V(icmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e));
    } else r = binop(op, t, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
  } else if (auto *ba = dyn_cast<BlockAddress>(c)) { (void)ba; engineError("blockaddress"); }
  else if (auto *de = dyn_cast<DSOLocalEquivalent>(c)) r = constVal(de->getGlobalValue());
  else engineError("unsupported constant");
  ccache[c] = r;
  return r;
}
static void initConst(MemObj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    for (size_t i = 0; i < raw.size(); i++) o->conc[off + i] = raw[i];
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cv = dyn_cast<ConstantVector>(c)) {
    uint64_t es = DL->getTypeStoreSize(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); i++) initConst(o, off + i * es, cv->getOperand(i));
    return;
  }
  E e = constVal(c).e;
  uint64_t n = DL->getTypeStoreSize(t);
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (uint64_t i = 0; i < n; i++) wrByte(o, off + i, mkExtract(e, i * 8, 8));
}

// ---------------------------------------------------------------- ops
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(K::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(K::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(K::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(K::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(K::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(K::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(K::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(K::Sle, b, a);
    default: engineError("icmp predicate");
  }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  E u = mkF(K::FUno, 1, a, b);
  switch (p) {
    case CmpInst::FCMP_OEQ: return mkF(K::FOEq, 1, a, b);
    case CmpInst::FCMP_OLT: return mkF(K::FOLt, 1, a, b);
    case CmpInst::FCMP_OLE: return mkF(K::FOLe, 1, a, b);
    case CmpInst::FCMP_OGT: return mkF(K::FOLt, 1, b, a);
    case CmpInst::FCMP_OGE: return mkF(K::FOLe, 1, b, a);
    case CmpInst::FCMP_ONE: return mkAnd1(mkNot(u), mkNot(mkF(K::FOEq, 1, a, b)));
    case CmpInst::FCMP_UEQ: return mkOr1(u, mkF(K::FOEq, 1, a, b));
    case CmpInst::FCMP_ULT: return mkOr1(u, mkF(K::FOLt, 1, a, b));
    case CmpInst::FCMP_ULE: return mkOr1(u, mkF(K::FOLe, 1, a, b));
    case CmpInst::FCMP_UGT: return mkOr1(u, mkF(K::FOLt, 1, b, a));
    case CmpInst::FCMP_UGE: return mkOr1(u, mkF(K::FOLe, 1, b, a));
    case CmpInst::FCMP_UNE: return mkNot(mkF(K::FOEq, 1, a, b));
    case CmpInst::FCMP_ORD: return mkNot(u);
    case CmpInst::FCMP_UNO: return u;
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    default: engineError("fcmp predicate");
  }
}
static E bin1(unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return mkBin(K::Add, a, b);
    case Instruction::Sub: return mkBin(K::Sub, a, b);
    case Instruction::Mul: return mkBin(K::Mul, a, b);
    case Instruction::UDiv: mustHold(mkNot(mkEq(b, mkC(0, b->w))), "ub", "division by zero"); return mkBin(K::UDiv, a, b);
    case Instruction::SDiv: mustHold(mkNot(mkEq(b, mkC(0, b->w))), "ub", "division by zero"); return mkBin(K::SDiv, a, b);
    case Instruction::URem: mustHold(mkNot(mkEq(b, mkC(0, b->w))), "ub", "division by zero"); return mkBin(K::URem, a, b);
    case Instruction::SRem: mustHold(mkNot(mkEq(b, mkC(0, b->w))), "ub", "division by zero"); return mkBin(K::SRem, a, b);
    case Instruction::And: return mkBin(K::And, a, b);
    case Instruction::Or: return mkBin(K::Or, a, b);
    case Instruction::Xor: return mkBin(K::Xor, a, b);
    case Instruction::Shl: return mkBin(K::Shl, a, b);
    case Instruction::LShr: return mkBin(K::LShr, a, b);
    case Instruction::AShr: return mkBin(K::AShr, a, b);
    case Instruction::FAdd: return mkF(K::FAdd, a->w, a, b);
    case Instruction::FSub: return mkF(K::FSub, a->w, a, b);
    case Instruction::FMul: return mkF(K::FMul, a->w, a, b);
    case Instruction::FDiv: return mkF(K::FDiv, a->w, a, b);
    default: engineError("binary op");
  }
}
static Val binop(unsigned op, Type *ty, Val a, Val b) {
  if (a.agg) {
    std::vector<E> v;
    for (size_t i = 0; i < a.agg->size(); i++) v.push_back(bin1(op, (*a.agg)[i], (*b.agg)[i]));
    return VA(v);
  }
  return V(bin1(op, a.e, b.e));
}
static E cast1(unsigned op, E a, unsigned w) {
  switch (op) {
    case Instruction::Trunc: return mkExtract(a, 0, w);
    case Instruction::ZExt: return mkZExt(a, w);
    case Instruction::SExt: return mkSExt(a, w);
    case Instruction::PtrToInt: return w <= a->w ? mkExtract(a, 0, w) : mkZExt(a, w);
    case Instruction::IntToPtr: return a->w < 64 ? mkZExt(a, 64) : mkExtract(a, 0, 64);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::UIToFP: return mkF(K::UToF, w, a);
    case Instruction::SIToFP: return mkF(K::SToF, w, a);
    case Instruction::FPToUI: return mkF(K::FToU, w, a);
    case Instruction::FPToSI: return mkF(K::FToS, w, a);
    case Instruction::FPExt: case Instruction::FPTrunc: return a->w == w ? a : mkF(K::FExt, w, a);
    default: engineError("cast op");
  }
}
static Val castop(unsigned op, Type *from, Type *to, Val a) {
  if (op == Instruction::BitCast && (isAgg(from) || isAgg(to))) {
    // reinterpret bits
    E all = nullptr;
    if (a.agg) { for (E e : *a.agg) all = all ? mkConcat(e, all) : e; } else all = a.e;
    if (!isAgg(to)) return V(all);
    auto *vt = cast<FixedVectorType>(to);
    unsigned ew = bits(vt->getElementType());
    std::vector<E> v;
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(mkExtract(all, i * ew, ew));
    return VA(v);
  }
  if (a.agg) {
    unsigned w = bits(cast<FixedVectorType>(to)->getElementType());
    std::vector<E> v;
    for (E e : *a.agg) v.push_back(cast1(op, e, w));
    return VA(v);
  }
  return V(cast1(op, a.e, bits(to)));
}

// ---------------------------------------------------------------- builtins
enum Bi {
  B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_NEWAL, B_NEWARRAL, B_DEL, B_DELARR,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR, B_ABORT, B_ASSERTFAIL, B_THROW, B_GUARD_ACQ, B_GUARD_REL, B_RET0,
  B_FLOOR, B_CEIL, B_TRUNC, B_EXIT,
  B_SX_SYM, B_SX_ASSUME, B_SX_ASSERT, B_SX_REACH, B_SX_OBS, B_SX_CONC, B_SX_HAVOC, B_SX_LIVE, B_SX_LOCK, B_SX_UNLOCK, B_SX_TRYLOCK,
  B_SX_SPAWN, B_SX_JOIN, B_SX_SCHED, B_SX_END, B_SX_FAIL, B_SX_ISSYM, B_SX_TID, B_SX_EQ, B_SX_ITE, B_SX_PRINT, B_SX_OBJSIZE, B_SX_MODE, B_SX_FILL, B_SX_MAY, B_SX_MUTEXFREE,
  B_SX_RANGE, B_SX_UNMOD, B_SX_RLOCK, B_SX_RUNLOCK, B_SX_CHOOSE
};
static std::map<std::string, int> biTab = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
  {"_Znwm", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
  {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZnamSt11align_val_t", B_NEWARRAL},
  {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
  {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdaPvSt11align_val_t", B_DELARR}, {"_ZdaPvRKSt9nothrow_t", B_DELARR},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR},
  {"__memcpy_chk", B_MEMCPY}, {"__memmove_chk", B_MEMCPY}, {"__memset_chk", B_MEMSET},
  {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT},
  {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0},
  {"_ZNSt8ios_base4InitC1Ev", B_RET0}, {"_ZNSt8ios_base4InitD1Ev", B_RET0},
  {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"trunc", B_TRUNC},
  {"sx_make_symbolic", B_SX_SYM}, {"sx_assume", B_SX_ASSUME}, {"sx_assert_", B_SX_ASSERT}, {"sx_reach", B_SX_REACH}, {"sx_observe", B_SX_OBS},
  {"sx_concretize", B_SX_CONC}, {"sx_havoc", B_SX_HAVOC}, {"sx_live_allocs", B_SX_LIVE}, {"sx_mutex_lock", B_SX_LOCK}, {"sx_mutex_unlock", B_SX_UNLOCK},
  {"sx_mutex_trylock", B_SX_TRYLOCK}, {"sx_mutex_free", B_SX_MUTEXFREE},
  {"sx_thread_spawn", B_SX_SPAWN}, {"sx_thread_join", B_SX_JOIN}, {"sx_sched_point", B_SX_SCHED}, {"sx_end_path", B_SX_END}, {"sx_fail", B_SX_FAIL},
  {"sx_is_symbolic", B_SX_ISSYM}, {"sx_thread_id", B_SX_TID}, {"sx_bytes_equal", B_SX_EQ}, {"sx_print", B_SX_PRINT}, {"sx_object_size", B_SX_OBJSIZE},
  {"sx_symbolic_mode", B_SX_MODE}, {"sx_may", B_SX_MAY}, {"sx_check_range", B_SX_RANGE}, {"sx_unmodelled", B_SX_UNMOD},
  {"sx_choose", B_SX_CHOOSE}, {"sx_mutex_rlock", B_SX_RLOCK}, {"sx_mutex_runlock", B_SX_RUNLOCK},
};
static int biOf(const Function *F) {
  std::string n = F->getName().str();
  auto it = biTab.find(n);
  if (it != biTab.end()) return it->second;
  if (n.compare(0, 11, "_ZSt_throw_") == 0 || n.compare(0, 6, "_ZSt20") == 0 || n.find("__throw_") != std::string::npos) return B_THROW;
  return B_NONE;
}

static FnInfo *infoOf(Function *F) {
  auto &fi = fninfo[F];
  if (!fi) {
    fi = new FnInfo;
    fi->F = F;
    fi->builtin = biOf(F);
    if (fi->builtin == B_THROW && !F->isDeclaration() && F->getName().find("__throw_") == StringRef::npos) fi->builtin = B_NONE;
    for (auto &a : F->args()) fi->slot[&a] = fi->n++;
    for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->n++;
  }
  return fi;
}
static std::string cstr(E p) {
  std::string s;
  uint64_t a = concretize(p);
  if (!a) return "(null)";
  for (int i = 0; i < 4096; i++) {
    E b = loadBytes(mkC(a + i, 64), 1, "string");
    char c = (char)(b->isC() ? (uint64_t)b->v : (uint64_t)evalE(b, PC.cur));
    if (!c) break;
    s.push_back(c);
  }
  return s;
}
static Val getV(Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = f.fi->slot.find(v);
  if (it == f.fi->slot.end()) {
    if (isa<MetadataAsValue>(v)) return Val();
    engineError("unknown value operand");
  }
  return f.regs[it->second];
}
static void setV(Frame &f, const Instruction *I, Val v) {
  if (I->getType()->isVoidTy()) return;
  f.regs[f.fi->slot[I]] = v;
}
static void pushCall(Thread *t, Function *F, const std::vector<Val> &args) {
  FnInfo *fi = infoOf(F);
  if (t->st.size() > 4000) fatal("stack", "call stack too deep (unbounded recursion)");
  t->st.emplace_back();
  Frame &f = t->st.back();
  f.fi = fi;
  f.regs.resize(fi->n);
  unsigned i = 0;
  for (auto &a : F->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (v.e && !isAgg(a.getType()) && v.e->w != bits(a.getType())) {
      unsigned w = bits(a.getType());
      v = V(v.e->w > w ? mkExtract(v.e, 0, w) : mkZExt(v.e, w));
    }
    if (a.hasByValAttr()) {
      uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
      MemObj *o = newObj(n, OK_STACK, "byval", a.getParamAlign().valueOrOne().value());
      f.allocas.push_back(o);
      doCopy(mkC(o->base, 64), v.e, mkC(n, 64));
      v = V(mkC(o->base, 64));
    }
    f.regs[i] = v;
    i++;
  }
  for (; i < args.size(); i++) f.varargs.push_back(args[i]);
  f.bb = &F->getEntryBlock();
  f.it = f.bb->begin();
}
static void popFrame(Thread *t) {
  Frame &f = t->st.back();
  for (MemObj *o : f.allocas) {
    // stack objects vanish: any later access is reported as wild/use-after-return
    objs.erase(o->base);
    if (lastObj == o) lastObj = nullptr;
    if (threads.size() > 1) for (uint64_t i = 0; i < o->cap; i++) shadow.erase(o->base + i);
    delete o;
  }
  t->st.pop_back();
}
static void enter(Frame &f, BasicBlock *to) {
  f.prev = f.bb;
  f.bb = to;
  f.it = to->begin();
  // phis in parallel
  std::vector<std::pair<unsigned, Val>> upd;
  while (auto *p = dyn_cast<PHINode>(&*f.it)) {
    upd.push_back({f.fi->slot[p], getV(f, p->getIncomingValueForBlock(f.prev))});
    ++f.it;
  }
  for (auto &u : upd) f.regs[u.first] = u.second;
}
static Val loadTy(E p, Type *t) {
  if (isAgg(t)) {
    std::vector<std::pair<uint64_t, Type *>> l;
    leaves(t, l, 0);
    std::vector<E> v;
    for (auto &x : l) {
      E e = loadBytes(mkBin(K::Add, p, mkC(x.first, 64)), DL->getTypeStoreSize(x.second));
      v.push_back(mkExtract(e, 0, bits(x.second)));
    }
    return VA(v);
  }
  E e = loadBytes(p, DL->getTypeStoreSize(t));
  return V(mkExtract(e, 0, bits(t)));
}
static void storeTy(E p, Val v, Type *t) {
  if (isAgg(t)) {
    std::vector<std::pair<uint64_t, Type *>> l;
    leaves(t, l, 0);
    for (size_t i = 0; i < l.size(); i++) storeBytes(mkBin(K::Add, p, mkC(l[i].first, 64)), (*v.agg)[i]);
    return;
  }
  storeBytes(p, v.e);
}
static E popcnt(E a) {
  E r = mkC(0, a->w);
  for (unsigned i = 0; i < a->w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(a, i, 1), a->w));
  return r;
}
static E cttz(E a) {
  E r = mkC(a->w, a->w);
  for (unsigned i = a->w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkC(i, a->w), r);
  return r;
}
static E ctlz(E a) {
  E r = mkC(a->w, a->w);
  for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkC(a->w - 1 - i, a->w), r);
  return r;
}
static E bswap(E a) {
  E r = nullptr;
  for (unsigned i = 0; i < a->w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; }
  return r;
}
static const char *ubName(unsigned k) {
  switch (k) {
    case 0: return "signed addition overflow";
    case 1: return "builtin called on zero / unreachable";
    case 3: return "division by zero or overflow";
    case 10: return "invalid enum/bool load";
    case 12: return "signed multiplication overflow";
    case 13: return "signed negation overflow";
    case 16: return "nonnull return";
    case 17: return "vla bound";
    case 18: return "out of bounds index";
    case 19: return "pointer overflow";
    case 20: return "invalid shift exponent";
    case 21: return "signed subtraction overflow";
    case 22: return "type mismatch / null or misaligned pointer";
    case 23: return "alignment";
    case 11: return "missing return";
    default: return "undefined behaviour trap";
  }
}
static void atomicSync(E addr) {
  if (threads.size() < 2) return;
  uint64_t a = concretize(addr);
  Thread *t = threads[curT];
  VC &v = atomVC[a];
  vcJoin(t->vc, v);
  v = t->vc;
  t->vc[curT]++;
}
// Preemption point in front of an atomic access: true if the instruction has to
// run again later because another thread was chosen now.
static bool atomicYield(Instruction *I) {
  if (threads.size() < 2) return false;
  Thread *t = threads[curT];
  if (t->yielded == I) { t->yielded = nullptr; return false; }
  t->yielded = I;
  t->st.back().it = std::prev(t->st.back().it);
  schedule("asched");
  return true;
}

// returns true if handled
static bool callBuiltin(int b, CallBase *CI, std::vector<Val> &a, Val &ret) {
  Thread *t = threads[curT];
  switch (b) {
    case B_MALLOC: ret = V(doAlloc(a[0].e, OK_MALLOC, false)); return true;
    case B_CALLOC: ret = V(doAlloc(mkBin(K::Mul, a[0].e, a[1].e), OK_MALLOC, true)); return true;
    case B_REALLOC: {
      uint64_t p = concretize(a[0].e);
      E np = doAlloc(a[1].e, OK_MALLOC, false);
      if (p) {
        MemObj *o = findObj(p);
        if (!o || o->freed) fatal("memory", "realloc of invalid pointer");
        uint64_t n = std::min(o->cap, concretize(a[1].e));
        doCopy(np, a[0].e, mkC(n, 64));
        doFree(a[0].e, OK_MALLOC);
      }
      ret = V(np);
      return true;
    }
    case B_FREE: doFree(a[0].e, OK_MALLOC); return true;
    case B_NEW: ret = V(doAlloc(a[0].e, OK_NEW, false)); return true;
    case B_NEWARR: ret = V(doAlloc(a[0].e, OK_NEWARR, false)); return true;
    case B_NEWAL: ret = V(doAlloc(a[0].e, OK_NEW, false, (uint64_t)a[1].e->v)); return true;
    case B_NEWARRAL: ret = V(doAlloc(a[0].e, OK_NEWARR, false, (uint64_t)a[1].e->v)); return true;
    case B_DEL: doFree(a[0].e, OK_NEW); return true;
    case B_DELARR: doFree(a[0].e, OK_NEWARR); return true;
    case B_MEMCPY: doCopy(a[0].e, a[1].e, a[2].e); ret = a[0]; return true;
    case B_MEMSET: doSet(a[0].e, a[1].e, a[2].e); ret = a[0]; return true;
    case B_MEMCMP: ret = V(doCmp(a[0].e, a[1].e, a[2].e, false)); return true;
    case B_BCMP: ret = V(doCmp(a[0].e, a[1].e, a[2].e, true)); return true;
    case B_STRLEN: {
      uint64_t p = concretize(a[0].e);
      uint64_t n = 0;
      while (true) {
        E c = loadBytes(mkC(p + n, 64), 1, "strlen");
        if (branch(mkEq(c, mkC(0, 8)))) break;
        n++;
      }
      ret = V(mkC(n, 64));
      return true;
    }
    case B_MEMCHR: {
      uint64_t p = concretize(a[0].e), n = concretize(a[2].e);
      E c = mkExtract(a[1].e, 0, 8);
      for (uint64_t i = 0; i < n; i++)
        if (branch(mkEq(loadBytes(mkC(p + i, 64), 1, "memchr"), c))) { ret = V(mkC(p + i, 64)); return true; }
      ret = V(mkC(0, 64));
      return true;
    }
    case B_ABORT: fatal("abort", "program aborts (" + CI->getCalledOperand()->stripPointerCasts()->getName().str() + ")");
    case B_ASSERTFAIL: fatal("abort", "assertion failed: " + cstr(a[0].e));
    case B_THROW: fatal("abort", "exception thrown: " + CI->getCalledOperand()->stripPointerCasts()->getName().str());
    case B_EXIT: fatal("abort", "program exits");
    case B_GUARD_ACQ: {
      E g = loadBytes(a[0].e, 1, "guard");
      ret = V(mkC((g->isC() && g->v) ? 0 : 1, 32));
      return true;
    }
    case B_GUARD_REL: storeBytes(a[0].e, mkC(1, 8)); return true;
    case B_RET0: if (!CI->getType()->isVoidTy()) ret = V(mkC(0, bits(CI->getType()))); return true;
    case B_FLOOR: ret = V(mkF(K::FFloor, a[0].e->w, a[0].e)); return true;
    case B_CEIL: ret = V(mkF(K::FCeil, a[0].e->w, a[0].e)); return true;
    case B_TRUNC: ret = V(mkF(K::FTrunc, a[0].e->w, a[0].e)); return true;
    case B_SX_SYM: {
      uint64_t n = concretize(a[1].e), p = concretize(a[0].e);
      InLog in;
      in.name = cstr(a[2].e);
      for (uint64_t i = 0; i < n; i++) { E s = mkSym(8); in.bytes.push_back(s); }
      if (n) { Acc ac = resolve(mkC(p, 64), mkC(n, 64), true, "make_symbolic"); raceAccess(ac.o, (uint64_t)ac.off->v, n, true);
        for (uint64_t i = 0; i < n; i++) wrByte(ac.o, (uint64_t)ac.off->v + i, in.bytes[i]); }
      inputs.push_back(in);
      return true;
    }
    case B_SX_HAVOC: {
      // fresh bytes over a possibly symbolic length
      E n = a[1].e;
      uint64_t cap = capOf(n, "havoc");
      InLog in;
      in.name = cstr(a[2].e);
      for (uint64_t i = 0; i < cap; i++) in.bytes.push_back(mkSym(8));
      inputs.push_back(in);
      scatter(a[0].e, n, in.bytes, "cipher output");
      return true;
    }
    case B_SX_ASSUME: {
      E c = mkNot(mkEq(a[0].e, mkC(0, a[0].e->w)));
      if (c->isC()) { if (!c->v) endPath("infeasible"); return true; }
      if (!evalE(c, PC.cur)) {
        Model m; std::vector<uint32_t> ms;
        Res r = PC.check(c, &m, &ms);
        if (r == R_UNKNOWN) S->limit++;
        if (r != R_SAT) endPath("infeasible");
        PC.add(c, &m, &ms);
      } else PC.add(c);
      if (PC.contradiction) endPath("infeasible");
      return true;
    }
    case B_SX_ASSERT: {
      S->asserts++;
      E c = mkNot(mkEq(a[0].e, mkC(0, a[0].e->w)));
      if (c->isC() && c->v) return true;
      mustHold(c, "assert", cstr(a[1].e));
      return true;
    }
    case B_SX_MAY: {
      E c = mkNot(mkEq(a[0].e, mkC(0, a[0].e->w)));
      ret = V(mkC(PC.may(c), 32));
      return true;
    }
    case B_SX_FAIL: fatal("assert", cstr(a[0].e));
    case B_SX_REACH: {
      std::string l = cstr(a[0].e);
      for (size_t i = 0; i < reachLabels.size(); i++) if (reachLabels[i] == l) { S->reach[i]++; return true; }
      engineError("unregistered reach label " + l);
    }
    case B_SX_OBS: observations.push_back({cstr(a[0].e), mkZExt(a[1].e, 64)}); S->obs++; return true;
    case B_SX_CONC: ret = V(mkC(concretize(a[0].e), 64)); return true;
    case B_SX_LIVE: ret = V(mkC((uint64_t)liveHeap, 64)); return true;
    case B_SX_ISSYM: ret = V(mkC(a[0].e->isC() ? 0 : 1, 32)); return true;
    case B_SX_MODE: ret = V(mkC(1, 32)); return true;
    case B_SX_TID: ret = V(mkC(curT, 32)); return true;
    case B_SX_OBJSIZE: {
      uint64_t p = concretize(a[0].e);
      MemObj *o = findObj(p);
      if (!o) { ret = V(mkC(0, 64)); return true; }
      E sz = o->size ? o->size : mkC(o->cap, 64);
      ret = V(mkBin(K::Sub, sz, mkC(p - o->base, 64)));
      return true;
    }
    case B_SX_EQ: {
      E r = doCmp(a[0].e, a[1].e, a[2].e, true);
      ret = V(mkIte(mkEq(r, mkC(0, 32)), mkC(1, 32), mkC(0, 32)));
      return true;
    }
    case B_SX_PRINT: {
      fprintf(stderr, "[print %d] %s = %s (now %llx)\n", (int)getpid(), cstr(a[0].e).c_str(), exprStr(a[1].e, 5).c_str(), (unsigned long long)(uint64_t)evalE(a[1].e, PC.cur));
      return true;
    }
    case B_SX_END: endPath("done");
    case B_SX_RLOCK:
    case B_SX_LOCK: {
      uint64_t m = concretize(a[0].e);
      bool sh = b == B_SX_RLOCK;
      if (t->waitMutex == 0) {
        t->waitMutex = m;
        t->waitShared = sh;
        MutexSt &ms = mutexes[m];
        if (ms.owner == curT || (!sh && ms.readers.count(curT))) fatal("deadlock", "mutex locked twice by the same thread");
        if (threads.size() > 1) {
          // preemption point; this call runs again when the thread is scheduled
          t->st.back().it = std::prev(t->st.back().it);
          schedule();
          return true;
        }
      }
      MutexSt &ms = mutexes[m];
      if (ms.owner >= 0 || (!sh && !ms.readers.empty())) engineError("lock: scheduled while owned");
      t->waitMutex = 0;
      vcJoin(t->vc, ms.vc);
      if (sh) ms.readers.insert(curT);
      else { ms.owner = curT; vcJoin(t->vc, ms.rvc); }
      return true;
    }
    case B_SX_RUNLOCK: {
      uint64_t m = concretize(a[0].e);
      MutexSt &ms = mutexes[m];
      auto it = ms.readers.find(curT);
      if (it == ms.readers.end()) fatal("lock", "unlock of a mutex not held");
      ms.readers.erase(it);
      vcJoin(ms.rvc, t->vc);
      t->vc[curT]++;
      if (threads.size() > 1) schedule();
      return true;
    }
    case B_SX_RANGE: {
      bool w = concretize(a[2].e) != 0;
      Acc ac = resolve(a[0].e, a[1].e, w, "buffer");
      if (ac.o && threads.size() > 1 && ac.off->isC() && a[1].e->isC()) raceAccess(ac.o, (uint64_t)ac.off->v, (uint64_t)a[1].e->v, w);
      return true;
    }
    case B_SX_CHOOSE: {
      // a fresh variable in [lo, hi], one path per value (each value is feasible: nothing constrains it yet)
      std::string name = cstr(a[0].e);
      uint32_t lo = (uint32_t)concretize(a[1].e), hi = (uint32_t)concretize(a[2].e), v = lo;
      if (lo > hi) endPath("infeasible");
      for (uint32_t k = lo; k < hi; k++) {
        pathForks++;
        if (!spawn()) { v = k + 1; continue; }
        v = k;
        break;
      }
      InLog in;
      in.name = name;
      for (int i = 0; i < 4; i++) in.bytes.push_back(mkC((v >> (8 * i)) & 255, 8));
      inputs.push_back(in);
      ret = V(mkC(v, 32));
      return true;
    }
    case B_SX_UNMOD: engineError("outside the models: " + cstr(a[0].e));
    case B_SX_TRYLOCK: {
      uint64_t m = concretize(a[0].e);
      MutexSt &ms = mutexes[m];
      if (ms.owner >= 0 || !ms.readers.empty()) { ret = V(mkC(0, 32)); return true; }
      ms.owner = curT;
      vcJoin(t->vc, ms.vc);
      vcJoin(t->vc, ms.rvc);
      ret = V(mkC(1, 32));
      return true;
    }
    case B_SX_UNLOCK: {
      uint64_t m = concretize(a[0].e);
      MutexSt &ms = mutexes[m];
      if (ms.owner != curT) fatal("lock", "unlock of a mutex not held");
      ms.owner = -1;
      ms.vc = t->vc;
      t->vc[curT]++;
      if (threads.size() > 1) schedule();
      return true;
    }
    case B_SX_MUTEXFREE: {
      uint64_t m = concretize(a[0].e);
      if (mutexes.count(m) && (mutexes[m].owner >= 0 || !mutexes[m].readers.empty())) fatal("lock", "mutex destroyed while held");
      mutexes.erase(m);
      return true;
    }
    case B_SX_SPAWN: {
      uint64_t fn = concretize(a[0].e);
      Function *F = fnAt.count(fn) ? fnAt[fn] : nullptr;
      if (!F) fatal("memory", "spawn: bad function");
      Thread *nt = new Thread;
      int id = threads.size();
      nt->vc = t->vc;
      nt->vc.resize(id + 1, 0);
      nt->vc[id] = 1;
      threads.push_back(nt);
      pushCall(nt, F, {a[1]});
      t->vc[curT]++;
      ret = V(mkC(id, 32));
      return true;
    }
    case B_SX_JOIN: {
      int id = (int)concretize(a[0].e);
      if (!threads[id]->done) {
        t->waitJoin = id;
        t->st.back().it = std::prev(t->st.back().it);
        schedule();
        return true;
      }
      t->waitJoin = -1;
      vcJoin(t->vc, threads[id]->vc);
      return true;
    }
    case B_SX_SCHED: if (threads.size() > 1) schedule(); return true;
    default: return false;
  }
}

static bool callIntrinsic(IntrinsicInst *II, std::vector<Val> &a, Val &ret) {
  auto el = [&](const std::function<E(E)> &f) { if (a[0].agg) { std::vector<E> v; for (E e : *a[0].agg) v.push_back(f(e)); return VA(v); } return V(f(a[0].e)); };
  auto el2 = [&](const std::function<E(E, E)> &f) { if (a[0].agg) { std::vector<E> v; for (size_t i = 0; i < a[0].agg->size(); i++) v.push_back(f((*a[0].agg)[i], (*a[1].agg)[i])); return VA(v); } return V(f(a[0].e, a[1].e)); };
  switch (II->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation:
      return true;
    case Intrinsic::invariant_start: ret = V(mkC(0, 64)); return true;
    case Intrinsic::stacksave: ret = V(mkC(0, 64)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(a[0].e, a[1].e, mkZExt(a[2].e, 64)); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: doSet(a[0].e, a[1].e, mkZExt(a[2].e, 64)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::threadlocal_address:
      ret = a[0]; return true;
    case Intrinsic::objectsize: ret = V(mkC(a[1].e->v ? 0 : (u128)-1, bits(II->getType()))); return true;
    case Intrinsic::is_constant: ret = V(mkC(0, 1)); return true;
    case Intrinsic::umin: ret = el2([](E x, E y) { return mkIte(mkBin(K::Ult, x, y), x, y); }); return true;
    case Intrinsic::umax: ret = el2([](E x, E y) { return mkIte(mkBin(K::Ult, x, y), y, x); }); return true;
    case Intrinsic::smin: ret = el2([](E x, E y) { return mkIte(mkBin(K::Slt, x, y), x, y); }); return true;
    case Intrinsic::smax: ret = el2([](E x, E y) { return mkIte(mkBin(K::Slt, x, y), y, x); }); return true;
    case Intrinsic::abs: ret = el([](E x) { return mkIte(mkBin(K::Slt, x, mkC(0, x->w)), mkBin(K::Sub, mkC(0, x->w), x), x); }); return true;
    case Intrinsic::usub_sat: ret = el2([](E x, E y) { return mkIte(mkBin(K::Ult, x, y), mkC(0, x->w), mkBin(K::Sub, x, y)); }); return true;
    case Intrinsic::uadd_sat: ret = el2([](E x, E y) { E s = mkBin(K::Add, x, y); return mkIte(mkBin(K::Ult, s, x), mkC(~(u128)0, x->w), s); }); return true;
    case Intrinsic::ctpop: ret = el(popcnt); return true;
    case Intrinsic::cttz: ret = el(cttz); return true;
    case Intrinsic::ctlz: ret = el(ctlz); return true;
    case Intrinsic::bswap: ret = el(bswap); return true;
    case Intrinsic::bitreverse: ret = el([](E x) { E r = nullptr; for (unsigned i = 0; i < x->w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } return r; }); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = II->getIntrinsicID() == Intrinsic::fshl;
      E x = a[0].e, y = a[1].e, c = a[2].e;
      unsigned w = x->w;
      E m = mkBin(K::URem, c, mkC(w, w));
      E inv = mkBin(K::Sub, mkC(w, w), m);
      E z = mkEq(m, mkC(0, w));
      if (l) ret = V(mkIte(z, x, mkBin(K::Or, mkBin(K::Shl, x, m), mkBin(K::LShr, y, inv))));
      else ret = V(mkIte(z, y, mkBin(K::Or, mkBin(K::Shl, x, inv), mkBin(K::LShr, y, m))));
      return true;
    }
    case Intrinsic::uadd_with_overflow: { E s = mkBin(K::Add, a[0].e, a[1].e); ret = VA({s, mkBin(K::Ult, s, a[0].e)}); return true; }
    case Intrinsic::usub_with_overflow: ret = VA({mkBin(K::Sub, a[0].e, a[1].e), mkBin(K::Ult, a[0].e, a[1].e)}); return true;
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      bool s = II->getIntrinsicID() == Intrinsic::smul_with_overflow;
      unsigned w = a[0].e->w;
      if (w > 64) engineError("mul overflow width");
      E x = s ? mkSExt(a[0].e, 2 * w) : mkZExt(a[0].e, 2 * w), y = s ? mkSExt(a[1].e, 2 * w) : mkZExt(a[1].e, 2 * w);
      E p = mkBin(K::Mul, x, y);
      E lo = mkBin(K::Mul, a[0].e, a[1].e);
      E ov = s ? mkNot(mkEq(mkSExt(lo, 2 * w), p)) : mkNot(mkEq(mkExtract(p, w, w), mkC(0, w)));
      ret = VA({lo, ov});
      return true;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      bool add = II->getIntrinsicID() == Intrinsic::sadd_with_overflow;
      unsigned w = a[0].e->w;
      E x = mkSExt(a[0].e, w + 1), y = mkSExt(a[1].e, w + 1);
      E p = mkBin(add ? K::Add : K::Sub, x, y);
      E lo = mkExtract(p, 0, w);
      ret = VA({lo, mkNot(mkEq(mkSExt(lo, w + 1), p))});
      return true;
    }
    case Intrinsic::floor: ret = V(mkF(K::FFloor, a[0].e->w, a[0].e)); return true;
    case Intrinsic::ceil: ret = V(mkF(K::FCeil, a[0].e->w, a[0].e)); return true;
    case Intrinsic::trunc: ret = V(mkF(K::FTrunc, a[0].e->w, a[0].e)); return true;
    case Intrinsic::fmuladd: ret = V(mkF(K::FAdd, a[0].e->w, mkF(K::FMul, a[0].e->w, a[0].e, a[1].e), a[2].e)); return true;
    case Intrinsic::trap: fatal("abort", "trap");
    case Intrinsic::ubsantrap: fatal("ub", ubName((unsigned)(uint64_t)a[0].e->v));
    case Intrinsic::load_relative: { E off = loadBytes(mkBin(K::Add, a[0].e, a[1].e), 4); ret = V(mkBin(K::Add, a[0].e, mkSExt(off, 64))); return true; }
    case Intrinsic::eh_typeid_for: ret = V(mkC(0, 32)); return true;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      auto id = II->getIntrinsicID();
      K k = id == Intrinsic::vector_reduce_or ? K::Or : id == Intrinsic::vector_reduce_and ? K::And : id == Intrinsic::vector_reduce_add ? K::Add : K::Xor;
      E r = (*a[0].agg)[0];
      for (size_t i = 1; i < a[0].agg->size(); i++) r = mkBin(k, r, (*a[0].agg)[i]);
      ret = V(r);
      return true;
    }
    default: return false;
  }
}

static void doCall(CallBase *CI) {
  Thread *t = threads[curT];
  Frame &f = t->st.back();
  std::vector<Val> args;
  for (auto &u : CI->args()) {
    if (isa<MetadataAsValue>(u.get())) { args.push_back(Val()); continue; }
    args.push_back(getV(f, u.get()));
  }
  Function *F = nullptr;
  const Value *cv = CI->getCalledOperand()->stripPointerCasts();
  if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
  if (CI->isInlineAsm()) {
    // empty asm barriers only
    if (CI->getType()->isVoidTy()) return;
    if (args.size() >= 1 && !isAgg(CI->getType())) { setV(f, CI, args[0]); return; }
    engineError("inline asm");
  }
  F = const_cast<Function *>(dyn_cast<Function>(cv));
  if (!F) {
    uint64_t a = concretize(getV(f, CI->getCalledOperand()).e);
    auto it = fnAt.find(a);
    if (it == fnAt.end()) fatal(a < 4096 ? "null-deref" : "memory", "indirect call to invalid address");
    F = it->second;
  }
  Val ret;
  if (auto *II = dyn_cast<IntrinsicInst>(CI)) {
    if (!callIntrinsic(II, args, ret)) engineError("unsupported intrinsic " + F->getName().str());
    if (ret.e || ret.agg) setV(threads[curT]->st.back(), CI, ret);
    return;
  }
  FnInfo *fi = infoOf(F);
  if (fi->builtin > B_NONE) {
    int me = curT;
    if (!callBuiltin(fi->builtin, CI, args, ret)) engineError("builtin " + F->getName().str());
    if (curT == me && (ret.e || ret.agg)) setV(threads[me]->st.back(), CI, ret);
    return;
  }
  if (F->isDeclaration()) engineError("call to unmodelled function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]");
  pushCall(t, F, args);
}

// ---------------------------------------------------------------- main loop
static void step() {
  Thread *t = threads[curT];
  Frame &f = t->st.back();
  Instruction *I = &*f.it;
  ++f.it;
  pathInstrs++;
  auto ci = covIdx.find(I);
  if (ci != covIdx.end()) S->cov[ci->second] = 1;
  if ((pathInstrs & 0xffff) == 0) {
    if (deadline && now() > deadline) { S->timeout = 1; S->stop = 1; }
    if (S->stop) endProcess();
    if (instrBase + pathInstrs > maxInstr) { S->limit++; reportError("hang", "no end of the execution", PC.cur); endPath("limit"); }
  }
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      auto *r = cast<ReturnInst>(I);
      Val v;
      if (r->getReturnValue()) v = getV(f, r->getReturnValue());
      popFrame(t);
      if (t->st.empty()) {
        t->done = true;
        if (curT == 0) endPath("done");
        t->vc[curT]++;
        schedule();
        return;
      }
      Frame &c = t->st.back();
      Instruction *call = &*std::prev(c.it);
      if (!call->getType()->isVoidTy()) {
        if (v.e && !isAgg(call->getType())) {
          unsigned w = bits(call->getType());
          if (v.e->w != w) v = V(v.e->w > w ? mkExtract(v.e, 0, w) : mkZExt(v.e, w));
        }
        setV(c, call, v);
      }
      if (auto *inv = dyn_cast<InvokeInst>(call)) enter(c, inv->getNormalDest());
      return;
    }
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { enter(f, b->getSuccessor(0)); return; }
      E c = getV(f, b->getCondition()).e;
      bool tk = branch(c);
      enter(f, b->getSuccessor(tk ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *s = cast<SwitchInst>(I);
      E v = getV(f, s->getCondition()).e;
      if (v->isC()) {
        BasicBlock *d = s->getDefaultDest();
        for (auto c : s->cases()) if (apToU(c.getCaseValue()->getValue()) == v->v) { d = c.getCaseSuccessor(); break; }
        enter(f, d);
        return;
      }
      std::vector<BasicBlock *> bbs;
      std::vector<E> conds;
      E any = mkFalse();
      for (auto c : s->cases()) {
        E e = mkEq(v, mkC(apToU(c.getCaseValue()->getValue()), v->w));
        any = mkOr1(any, e);
        size_t k = 0;
        for (; k < bbs.size(); k++) if (bbs[k] == c.getCaseSuccessor()) break;
        if (k == bbs.size()) { bbs.push_back(c.getCaseSuccessor()); conds.push_back(e); }
        else conds[k] = mkOr1(conds[k], e);
      }
      E def = mkNot(any);
      size_t k = 0;
      for (; k < bbs.size(); k++) if (bbs[k] == s->getDefaultDest()) break;
      if (k == bbs.size()) { bbs.push_back(s->getDefaultDest()); conds.push_back(def); }
      else conds[k] = mkOr1(conds[k], def);
      unsigned i = forkOn(conds);
      enter(threads[curT]->st.back(), bbs[i]);
      return;
    }
    case Instruction::Unreachable: fatal("ub", "unreachable executed");
    case Instruction::Call: doCall(cast<CallBase>(I)); return;
    case Instruction::Invoke: {
      auto *iv = cast<InvokeInst>(I);
      size_t depth = t->st.size();
      int me = curT;
      doCall(iv);
      if (curT == me && t->st.size() == depth && &*std::prev(t->st.back().it) == I) enter(t->st.back(), iv->getNormalDest());
      return;
    }
    case Instruction::Alloca: {
      auto *al = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(al->getAllocatedType());
      if (al->isArrayAllocation()) n *= concretize(getV(f, al->getArraySize()).e);
      MemObj *o = newObj(n, OK_STACK, "stack", al->getAlign().value());
      f.allocas.push_back(o);
      setV(f, I, V(mkC(o->base, 64)));
      return;
    }
    case Instruction::Load: {
      auto *l = cast<LoadInst>(I);
      E p = getV(f, l->getPointerOperand()).e;
      if (l->isAtomic() && threads.size() > 1) {
        if (atomicYield(I)) return;
        atomicSync(p);
      }
      setV(f, I, loadTy(p, l->getType()));
      return;
    }
    case Instruction::Store: {
      auto *s = cast<StoreInst>(I);
      E p = getV(f, s->getPointerOperand()).e;
      if (s->isAtomic() && atomicYield(I)) return;
      if (s->isAtomic()) atomicSync(p);
      storeTy(p, getV(f, s->getValueOperand()), s->getValueOperand()->getType());
      if (s->isAtomic()) atomicSync(p);
      return;
    }
    case Instruction::AtomicRMW: {
      auto *r = cast<AtomicRMWInst>(I);
      E p = getV(f, r->getPointerOperand()).e;
      if (atomicYield(I)) return;
      atomicSync(p);
      E old = loadTy(p, r->getType()).e, v = getV(f, r->getValOperand()).e, nv;
      switch (r->getOperation()) {
        case AtomicRMWInst::Add: nv = mkBin(K::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = mkBin(K::Sub, old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = mkBin(K::And, old, v); break;
        case AtomicRMWInst::Or: nv = mkBin(K::Or, old, v); break;
        case AtomicRMWInst::Xor: nv = mkBin(K::Xor, old, v); break;
        default: engineError("atomicrmw op");
      }
      storeTy(p, V(nv), r->getType());
      atomicSync(p);
      setV(f, I, V(old));
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto *x = cast<AtomicCmpXchgInst>(I);
      E p = getV(f, x->getPointerOperand()).e;
      if (atomicYield(I)) return;
      atomicSync(p);
      Type *ty = x->getNewValOperand()->getType();
      E old = loadTy(p, ty).e, c = getV(f, x->getCompareOperand()).e, n = getV(f, x->getNewValOperand()).e;
      E eq = mkEq(old, c);
      storeTy(p, V(mkIte(eq, n, old)), ty);
      atomicSync(p);
      setV(f, I, VA({old, eq}));
      return;
    }
    case Instruction::Fence: return;
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(I);
      if (I->getType()->isVectorTy()) engineError("vector gep");
      E b = getV(f, g->getPointerOperand()).e;
      setV(f, I, V(mkBin(K::Add, b, gepOff(g, [&](const Value *v) { return getV(f, v).e; }))));
      return;
    }
    case Instruction::ICmp: {
      auto *c = cast<ICmpInst>(I);
      Val a = getV(f, c->getOperand(0)), b = getV(f, c->getOperand(1));
      if (a.agg) {
        std::vector<E> v;
        for (size_t i = 0; i < a.agg->size(); i++) v.push_back(icmp(c->getPredicate(), (*a.agg)[i], (*b.agg)[i]));
        setV(f, I, VA(v));
      } else setV(f, I, V(icmp(c->getPredicate(), a.e, b.e)));
      return;
    }
    case Instruction::FCmp: setV(f, I, V(fcmp(cast<FCmpInst>(I)->getPredicate(), getV(f, I->getOperand(0)).e, getV(f, I->getOperand(1)).e))); return;
    case Instruction::FNeg: { E a = getV(f, I->getOperand(0)).e; setV(f, I, V(mkBin(K::Xor, a, mkC((u128)1 << (a->w - 1), a->w)))); return; }
    case Instruction::Select: {
      Val c = getV(f, I->getOperand(0)), a = getV(f, I->getOperand(1)), b = getV(f, I->getOperand(2));
      if (a.agg) {
        std::vector<E> v;
        for (size_t i = 0; i < a.agg->size(); i++) v.push_back(mkIte(c.agg ? (*c.agg)[i] : c.e, (*a.agg)[i], (*b.agg)[i]));
        setV(f, I, VA(v));
      } else setV(f, I, V(mkIte(c.e, a.e, b.e)));
      return;
    }
    case Instruction::Freeze: setV(f, I, getV(f, I->getOperand(0))); return;
    case Instruction::ExtractValue: {
      auto *x = cast<ExtractValueInst>(I);
      Val a = getV(f, x->getAggregateOperand());
      Type *ty = x->getAggregateOperand()->getType();
      unsigned off = 0;
      for (unsigned idx : x->indices()) {
        if (auto *st = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < idx; i++) off += numLeaves(st->getElementType(i)); ty = st->getElementType(idx); }
        else { auto *at = cast<ArrayType>(ty); off += idx * numLeaves(at->getElementType()); ty = at->getElementType(); }
      }
      if (isAgg(ty)) setV(f, I, VA(std::vector<E>(a.agg->begin() + off, a.agg->begin() + off + numLeaves(ty))));
      else setV(f, I, V((*a.agg)[off]));
      return;
    }
    case Instruction::InsertValue: {
      auto *x = cast<InsertValueInst>(I);
      Val a = getV(f, x->getAggregateOperand()), v = getV(f, x->getInsertedValueOperand());
      Type *ty = x->getAggregateOperand()->getType();
      unsigned off = 0;
      for (unsigned idx : x->indices()) {
        if (auto *st = dyn_cast<StructType>(ty)) { for (unsigned i = 0; i < idx; i++) off += numLeaves(st->getElementType(i)); ty = st->getElementType(idx); }
        else { auto *at = cast<ArrayType>(ty); off += idx * numLeaves(at->getElementType()); ty = at->getElementType(); }
      }
      std::vector<E> n = *a.agg;
      if (v.agg) for (size_t i = 0; i < v.agg->size(); i++) n[off + i] = (*v.agg)[i];
      else n[off] = v.e;
      setV(f, I, VA(n));
      return;
    }
    case Instruction::ExtractElement: {
      Val a = getV(f, I->getOperand(0));
      uint64_t i = concretize(getV(f, I->getOperand(1)).e);
      setV(f, I, V((*a.agg)[i]));
      return;
    }
    case Instruction::InsertElement: {
      Val a = getV(f, I->getOperand(0));
      uint64_t i = concretize(getV(f, I->getOperand(2)).e);
      std::vector<E> n = *a.agg;
      n[i] = getV(f, I->getOperand(1)).e;
      setV(f, I, VA(n));
      return;
    }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(I);
      Val a = getV(f, sv->getOperand(0)), b = getV(f, sv->getOperand(1));
      std::vector<E> n;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) n.push_back(mkC(0, (*a.agg)[0]->w));
        else n.push_back((size_t)m < a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
      }
      setV(f, I, VA(n));
      return;
    }
    default:
      if (I->isBinaryOp()) { setV(f, I, binop(I->getOpcode(), I->getType(), getV(f, I->getOperand(0)), getV(f, I->getOperand(1)))); return; }
      if (I->isCast()) { setV(f, I, castop(I->getOpcode(), I->getOperand(0)->getType(), I->getType(), getV(f, I->getOperand(0)))); return; }
      engineError(std::string("unsupported instruction ") + I->getOpcodeName());
  }
}
static void runMain() { while (true) step(); }

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static double t0;
void rootFinish() {
  FILE *f = fopen((outDir + "/summary.json").c_str(), "w");
  bool lost = S->started.load() != S->finished.load();
  bool complete = !S->stop && !S->timeout && !S->limit && !S->engineErr && !lost;
  fprintf(f, "{\n \"complete\": %s,\n \"timeout\": %d,\n \"stopped\": %d,\n \"limit\": %llu,\n \"engine_errors\": %llu,\n \"lost\": %d,\n", complete ? "true" : "false", S->timeout.load(), S->stop.load(), (unsigned long long)S->limit, (unsigned long long)S->engineErr, (int)lost);
#define P(n, x) fprintf(f, " \"%s\": %llu,\n", n, (unsigned long long)(x))
  P("paths", S->paths); P("infeasible_paths", S->infeasible); P("error_paths", S->errpaths); P("forks", S->forks); P("instructions", S->instrs);
  P("queries", S->queries); P("sat", S->sat); P("unsat", S->unsat); P("unknown", S->unknown); P("cache_hits", S->hits);
  P("asserts_checked", S->asserts); P("memory_checks", S->memchecks); P("errors", S->nerr); P("witnesses", std::min(S->nwit.load(), maxWitness));
  P("max_fork_depth", S->maxDepth); P("max_constraints", S->maxCons); P("max_path_instructions", S->maxInstr);
  fprintf(f, " \"solver_seconds\": %.3f,\n \"wall_seconds\": %.3f,\n", S->ns / 1e9, now() - t0);
  fprintf(f, " \"reach\": {");
  for (size_t i = 0; i < reachLabels.size(); i++) fprintf(f, "%s\"%s\": %u", i ? ", " : "", jesc(reachLabels[i]).c_str(), S->reach[i].load());
  fprintf(f, "},\n \"functions\": {");
  std::map<std::string, std::set<std::pair<std::string, unsigned>>> fl, tl;
  for (size_t i = 0; i < covInst.size(); i++) {
    auto *I = covInst[i];
    std::string fn = demangle(I->getFunction()->getName().str());
    const DebugLoc &d = I->getDebugLoc();
    auto *sc = cast<DIScope>(d.getScope());
    std::string file = sc->getFilename().str();
    if (!file.empty() && file[0] != '/') file = sc->getDirectory().str() + "/" + file;
    if (file.compare(0, repoPrefix.size(), repoPrefix)) continue;
    file = file.substr(repoPrefix.size());
    tl[fn].insert({file, d.getLine()});
    if (S->cov[i]) fl[fn].insert({file, d.getLine()});
  }
  bool first = true;
  size_t cl = 0, tt = 0;
  for (auto &p : fl) {
    if (p.second.empty()) continue;
    fprintf(f, "%s\n  \"%s\": [%zu, %zu]", first ? "" : ",", jesc(p.first).c_str(), p.second.size(), tl[p.first].size());
    first = false;
    cl += p.second.size(); tt += tl[p.first].size();
  }
  fprintf(f, "},\n \"lines_covered\": %zu,\n \"lines_total_in_entered_functions\": %zu\n}\n", cl, tt);
  fclose(f);
}

int main(int argc, char **argv) {
  // large stack for recursive evaluation
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30) && !getenv("SXE_STACK")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ul << 30) : std::min<rlim_t>(rl.rlim_max, 4ul << 30);
    setrlimit(RLIMIT_STACK, &rl);
    setenv("SXE_STACK", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::string file, entry = "sx_main";
  int jobs = 8;
  double tmo = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") { outDir = nx(); mkdir(outDir.c_str(), 0777); }
    else if (a == "-e") entry = nx();
    else if (a == "-j") jobs = atoi(nx().c_str());
    else if (a == "-t") tmo = atof(nx().c_str());
    else if (a == "--max-errors") maxErrors = atoi(nx().c_str());
    else if (a == "--max-instr") maxInstr = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--max-alloc") maxAlloc = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--witness") maxWitness = atoi(nx().c_str());
    else if (a == "--preempt") preemptBound = atoi(nx().c_str());
    else if (a == "--rlimit") gRlimit = atoi(nx().c_str());
    else if (a == "--repo") repoPrefix = nx() + "/";
    else if (a == "--dump") gDumpDir = argv[++i];
    else if (a == "--reach") reachLabels.push_back(nx());
    else if (a == "-v") verbose = true;
    else file = a;
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S->tokens = jobs - 1;
  t0 = now();
  if (tmo) deadline = t0 + tmo;
  rootPid = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("sxe", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  solverInit();
  // coverage index over repo instructions
  for (auto &F : *M) for (auto &BB : F) for (auto &I : BB) {
    if (!I.getDebugLoc()) continue;
    auto *sc = cast<DIScope>(I.getDebugLoc().getScope());
    std::string fl = sc->getFilename().str();
    if (!fl.empty() && fl[0] != '/') fl = sc->getDirectory().str() + "/" + fl;
    if (fl.compare(0, repoPrefix.size(), repoPrefix)) continue;
    if (covInst.size() >= sizeof(S->cov)) break;
    covIdx[&I] = covInst.size();
    covInst.push_back(&I);
  }
  for (auto &F : *M) addrOf(&F);
  for (auto &G : M->globals()) {
    if (G.isDeclaration()) { addrOf(&G); continue; }
    MemObj *o = newObj(DL->getTypeAllocSize(G.getValueType()), OK_GLOBAL, G.getName().str(), G.getAlign().valueOrOne().value(), true);
    o->model = G.getSection() == "sx_model";
    gaddr[&G] = o->base;
  }
  for (auto &G : M->globals()) if (!G.isDeclaration()) {
    MemObj *o = objs[gaddr[&G]];
    initConst(o, 0, G.getInitializer());
    o->ro = G.isConstant();
  }
  Function *F = M->getFunction(entry);
  if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  Thread *t = new Thread;
  t->vc = {1};
  threads.push_back(t);
  S->started = 1;
  pushCall(t, F, {});
  // constructors run first: push in reverse order
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, Function *>> cs;
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *st = cast<ConstantStruct>(op);
        if (auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (size_t i = cs.size(); i-- > 0;) pushCall(t, cs[i].second, {});
  }
  runMain();
}
