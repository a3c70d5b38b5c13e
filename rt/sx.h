// Interface between harnesses / library models and the two ways of running
// them: the symbolic executor (engine/) and the native replay (native_rt.cc).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_make_symbolic(void *p, size_t n, const char *name);
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *label);          // vacuity: must be reached on some path
void sx_observe(const char *name, uint64_t v);
uint64_t sx_concretize(uint64_t v);
uint32_t sx_choose(const char *name, uint32_t lo, uint32_t hi);
int64_t sx_live_allocs(void);
void sx_mutex_lock(void *m);
void sx_mutex_unlock(void *m);
int sx_mutex_trylock(void *m);
void sx_mutex_rlock(void *m);
void sx_mutex_runlock(void *m);
void sx_mutex_free(void *m);
int sx_thread_spawn(void (*fn)(void *), void *arg);
void sx_thread_join(int id);
void sx_sched_point(void);
int sx_thread_id(void);
void sx_end_path(void);
int sx_is_symbolic(uint64_t v);
int sx_bytes_equal(const void *p, const void *q, size_t n);
int sx_symbolic_mode(void);
int sx_may(int c);
void sx_check_range(const void *p, size_t n, int write);
void sx_unmodelled(const char *msg);       // outside what the models cover: no verdict
void sx_print(const char *name, uint64_t v);
void sx_main(void);
#ifdef __cplusplus
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c, msg) sx_assert_(!!(c), msg)
// State of a model or harness that threads share without synchronisation.
#define SX_MODEL __attribute__((section("sx_model")))
// Reachability labels that a run has to hit are declared with REACH.
#define REACH(l) sx_reach(l)
#endif
