// Native replay: runs a harness compiled with ASan/UBSan on the concrete inputs of
// a counterexample or witness file (lines "IN <name> <hex>").
// exit 0: ran to the end; 99: an assertion of the harness failed; 98: sanitizer
// report; 97: abort/terminate in the code; 77: an assumption does not hold on
// these inputs; 78: inputs do not match; 79: outside the models; 96: deadlock.
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sx.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_TSAN   // this file itself is not instrumented then
extern "C" {
void AnnotateIgnoreSyncBegin(const char *, int);
void AnnotateIgnoreSyncEnd(const char *, int);
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
void __tsan_acquire(void *);
void __tsan_release(void *);
}
#endif
// What orders the threads of a replay must not look like synchronisation of the program.
struct NoSync {
#ifdef HAVE_TSAN
  NoSync() { AnnotateIgnoreSyncBegin(__FILE__, __LINE__); AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
  ~NoSync() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); AnnotateIgnoreSyncEnd(__FILE__, __LINE__); }
#else
  NoSync() {}
  ~NoSync() {}
#endif
};
static void acquired(void *m) {
#ifdef HAVE_TSAN
  __tsan_acquire(m);
#else
  (void)m;
#endif
}
static void released(void *m) {
#ifdef HAVE_TSAN
  __tsan_release(m);
#else
  (void)m;
#endif
}
struct In { std::string name, data; };
static std::vector<In> ins;
static size_t pos;
static FILE *obs;
static int fill;
static bool free_run;   // threads run freely (race replay), inputs by name

static void die(int code, const char *what, const char *msg) {
  fprintf(stderr, "SX-%s %s\n", what, msg);
  fflush(0);
  _exit(code);
}
static pthread_mutex_t gl = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gc = PTHREAD_COND_INITIALIZER;
struct T { pthread_t th; bool done; void *wm; bool sh; int wj; void (*fn)(void *); void *arg; };
static std::vector<T *> ts;
static int cur, preempt, bound = 2;
static thread_local int me = 0;
// allocations of this file and of pthread are not the program's
static thread_local int inrt = 0;
struct InRt { InRt() { inrt++; } ~InRt() { inrt--; } };
struct Mx { int owner = -1; std::multiset<int> readers; pthread_rwlock_t m; };
static std::map<void *, Mx *> mx;
static Mx &getmx(void *m) { Mx *&x = mx[m]; if (!x) { x = new Mx; pthread_rwlock_init(&x->m, 0); } return *x; }

static bool take(const char *name, std::string &out) {
  while (pos < ins.size()) {
    In &i = ins[pos];
    if (i.name == name) { out = i.data; pos++; return true; }
    return false;
  }
  return false;
}
static bool runnable(int i) {
  T *t = ts[i];
  if (t->done) return false;
  if (t->wm) { Mx &m = getmx(t->wm); if (m.owner >= 0 || (!t->sh && !m.readers.empty())) return false; }
  if (t->wj >= 0 && !ts[t->wj]->done) return false;
  return true;
}
// gl held; picks the next thread and waits for the baton
static void schedule() {
  std::vector<int> r;
  bool ok = runnable(me);
  for (int i = 0; i < (int)ts.size(); i++) if (runnable(i)) r.push_back(i);
  if (r.empty()) {
    bool all = true;
    for (auto t : ts) if (!t->done) all = false;
    if (all) return;
    die(96, "DEADLOCK", "no runnable thread");
  }
  int nx = me;
  if (ok && (r.size() == 1 || preempt >= bound)) nx = me;
  else if (!ok && r.size() == 1) nx = r[0];
  else {
    std::string d;
    if (take("sched", d) && d.size() == 1) nx = (unsigned char)d[0];
    else nx = ok ? me : r[0];
    bool found = false;
    for (int x : r) if (x == nx) found = true;
    if (!found) die(78, "MISMATCH", "schedule");
    if (ok && nx != me) preempt++;
  }
  cur = nx;
  pthread_cond_broadcast(&gc);
}
static void waitTurn() { while (cur != me) pthread_cond_wait(&gc, &gl); }

extern "C" {
void sx_make_symbolic(void *p, size_t n, const char *name) {
  std::string d;
  bool have = false;
  if (free_run) {
    static std::map<std::string, size_t> at;
    pthread_mutex_lock(&gl);
    size_t k = at[name];
    size_t seen = 0;
    for (auto &i : ins) if (i.name == name) { if (seen == k) { d = i.data; have = true; break; } seen++; }
    at[name]++;
    pthread_mutex_unlock(&gl);
  } else if (take(name, d)) have = true;
  if (!have) { if (getenv("SX_STRICT")) die(78, "MISMATCH", name); d.assign(n, '\0'); }
  if (d.size() < n) d.resize(n, '\0');
  memcpy(p, d.data(), n);
}
uint32_t sx_choose(const char *name, uint32_t lo, uint32_t hi) {
  uint32_t v = lo;
  sx_make_symbolic(&v, 4, name);
  if (v < lo || v > hi) die(77, "ASSUME", "choice out of range");
  return v;
}
void sx_assume(int c) { if (!c) die(77, "ASSUME", "assumption does not hold on these inputs"); }
void sx_assert_(int c, const char *m) { if (!c) die(99, "ASSERT", m); }
void sx_fail(const char *m) { die(99, "ASSERT", m); }
void sx_reach(const char *) {}
void sx_observe(const char *n, uint64_t v) { if (obs) fprintf(obs, "OBS %s %llx\n", n, (unsigned long long)v); }
uint64_t sx_concretize(uint64_t v) { return v; }
static int64_t live;
int64_t sx_live_allocs(void) { return live; }
#ifdef HAVE_ASAN
static void onMalloc(const volatile void *, size_t) { if (!inrt) __sync_fetch_and_add(&live, 1); }
static void onFree(const volatile void *p) { if (p && !inrt) __sync_fetch_and_sub(&live, 1); }
#endif
void sx_end_path(void) { if (obs) fflush(obs); _exit(0); }
int sx_is_symbolic(uint64_t) { return 0; }
int sx_bytes_equal(const void *p, const void *q, size_t n) { return n == 0 || memcmp(p, q, n) == 0; }
int sx_symbolic_mode(void) { return 0; }
int sx_may(int c) { return c; }
void sx_check_range(const void *p, size_t n, int w) {
  if (!n) return;
  volatile unsigned char *b = (volatile unsigned char *)p;
#ifdef HAVE_ASAN
  if (void *bad = __asan_region_is_poisoned((void *)p, n)) b = (volatile unsigned char *)bad, n = 1;
#endif
  unsigned char x = b[0], y = b[n - 1];
  if (w) { b[0] = x; b[n - 1] = y; }
}
void sx_unmodelled(const char *m) { die(79, "UNMODELLED", m); }
void sx_print(const char *n, uint64_t v) { fprintf(stderr, "[print] %s = %llx\n", n, (unsigned long long)v); }
int sx_thread_id(void) { return me; }

static pthread_rwlock_t *raw(void *m) { pthread_mutex_lock(&gl); pthread_rwlock_t *q = &getmx(m).m; pthread_mutex_unlock(&gl); return q; }
static void lockIn(void *m, bool sh) {
  InRt rt_;
  if (free_run) { if (sh) pthread_rwlock_rdlock(raw(m)); else pthread_rwlock_wrlock(raw(m)); return; }
  NoSync ns_;
  pthread_mutex_lock(&gl);
  Mx &x = getmx(m);
  if (x.owner == me || (!sh && x.readers.count(me))) die(96, "DEADLOCK", "mutex locked twice by the same thread");
  if (ts.size() > 1) { ts[me]->wm = m; ts[me]->sh = sh; schedule(); waitTurn(); ts[me]->wm = 0; }
  if (sh) x.readers.insert(me); else x.owner = me;
  pthread_mutex_unlock(&gl);
}
static void unlockIn(void *m, bool sh) {
  InRt rt_;
  if (free_run) { pthread_rwlock_unlock(raw(m)); return; }
  NoSync ns_;
  pthread_mutex_lock(&gl);
  Mx &x = getmx(m);
  if (sh) {
    auto it = x.readers.find(me);
    if (it == x.readers.end()) die(99, "ASSERT", "unlock of a mutex not held");
    x.readers.erase(it);
  } else {
    if (x.owner != me) die(99, "ASSERT", "unlock of a mutex not held");
    x.owner = -1;
  }
  if (ts.size() > 1) { schedule(); waitTurn(); }
  pthread_mutex_unlock(&gl);
}
static void lockAny(void *m, bool sh) { lockIn(m, sh); acquired(m); }
static void unlockAny(void *m, bool sh) { released(m); unlockIn(m, sh); }
void sx_mutex_lock(void *m) { lockAny(m, false); }
void sx_mutex_unlock(void *m) { unlockAny(m, false); }
void sx_mutex_rlock(void *m) { lockAny(m, true); }
void sx_mutex_runlock(void *m) { unlockAny(m, true); }
static int tryIn(void *m) {
  InRt rt_;
  if (free_run) return pthread_rwlock_trywrlock(raw(m)) == 0;
  NoSync ns_;
  pthread_mutex_lock(&gl);
  Mx &x = getmx(m);
  int r = x.owner < 0 && x.readers.empty();
  if (r) x.owner = me;
  pthread_mutex_unlock(&gl);
  return r;
}
int sx_mutex_trylock(void *m) { int r = tryIn(m); if (r) acquired(m); return r; }
void sx_mutex_free(void *m) {
  InRt rt_;
  NoSync ns_;
  pthread_mutex_lock(&gl);
  auto it = mx.find(m);
  if (it != mx.end()) { if (it->second->owner >= 0 && !free_run) die(99, "ASSERT", "mutex destroyed while held"); delete it->second; mx.erase(it); }
  pthread_mutex_unlock(&gl);
}
static void *tmain(void *a) {
  long id = (long)a;
  me = (int)id;
  T *t = ts[id];
  if (!free_run) { NoSync ns_; pthread_mutex_lock(&gl); waitTurn(); pthread_mutex_unlock(&gl); }
  t->fn(t->arg);
  inrt++;
  if (!free_run) { NoSync ns_; pthread_mutex_lock(&gl); t->done = true; schedule(); pthread_mutex_unlock(&gl); }
  return 0;
}
int sx_thread_spawn(void (*fn)(void *), void *arg) {
  InRt rt_;
  pthread_mutex_lock(&gl);
  if (ts.empty()) { ts.reserve(16); T *m = new T(); m->wj = -1; ts.push_back(m); cur = 0; }
  T *t = new T();
  t->wj = -1; t->fn = fn; t->arg = arg;
  ts.push_back(t);
  long id = (long)ts.size() - 1;
  pthread_mutex_unlock(&gl);
  pthread_create(&t->th, 0, tmain, (void *)id);
  return (int)id;
}
void sx_thread_join(int id) {
  InRt rt_;
  if (!free_run) {
    NoSync ns_;
    pthread_mutex_lock(&gl);
    while (!ts[id]->done) { ts[me]->wj = id; schedule(); waitTurn(); }
    ts[me]->wj = -1;
    pthread_mutex_unlock(&gl);
  }
  pthread_join(ts[id]->th, 0);
}
void sx_sched_point(void) {
  InRt rt_;
  if (ts.size() < 2 || free_run) return;
  NoSync ns_;
  pthread_mutex_lock(&gl);
  schedule(); waitTurn();
  pthread_mutex_unlock(&gl);
}
static void onAbort(int) { const char m[] = "SX-ABORT the code aborted\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
// environment variable stand-in shared with libc_rt.c
const char *sx_env_name = 0;
const char *sx_env_value = 0;
char *__real_getenv(const char *n);
char *__wrap_getenv(const char *n) {
  if (sx_env_name && strcmp(n, sx_env_name) == 0) return (char *)sx_env_value;
  return __real_getenv(n);
}
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 2;
  static char obuf[1 << 16];
  if (argc > 2) { obs = fopen(argv[2], "w"); setvbuf(obs, obuf, _IOFBF, sizeof obuf); }
  free_run = getenv("SX_FREE_RUN") != 0;
  if (getenv("SX_PREEMPT")) bound = atoi(getenv("SX_PREEMPT"));
  static char line[1 << 20];
  while (fgets(line, sizeof line, f)) {
    if (strncmp(line, "IN ", 3)) continue;
    char *n = line + 3, *h = strchr(n, ' ');
    if (!h) continue;
    *h++ = 0;
    In i;
    i.name = n;
    for (; h[0] && h[1] && h[0] != '\n' && h[0] != '-'; h += 2) i.data.push_back((char)(hexv(h[0]) * 16 + hexv(h[1])));
    if (i.name == "asched" || (free_run && i.name == "sched")) continue;
    ins.push_back(i);
  }
  fclose(f);
  signal(SIGABRT, onAbort);
#ifdef HAVE_ASAN
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  sx_main();
  if (obs) fclose(obs);
  fflush(0);
  _exit(0);
}
