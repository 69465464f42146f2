/* Wraps the libgomp entry points the library calls (--wrap). Two jobs:
   1. with RV_TSAN: tell ThreadSanitizer about the happens-before edges libgomp (not instrumented) really gives:
      fork, join, barrier, critical sections.
   2. schedule perturbation: with rv_perturb>0, each thread of a region starts after a pseudo-random number of yields/sleeps,
      and critical sections and barriers are entered after another; counts regions, teams, distinct arrival orders. */
#define _GNU_SOURCE
#include <stdint.h>
#include <sched.h>
#include <time.h>
#include <omp.h>
#ifdef RV_TSAN
void __tsan_acquire(void*); void __tsan_release(void*);
#define ACQ(p) __tsan_acquire(p)
#define REL(p) __tsan_release(p)
#else
#define ACQ(p) ((void)0)
#define REL(p) ((void)0)
#endif
#define NOTSAN __attribute__((no_sanitize("thread")))
#define EXP __attribute__((visibility("default")))

EXP volatile long rv_perturb = 0;     /* 0 off, else seed */
EXP long rv_team_min = 1000000, rv_team_entered = 0; /* smallest team, threads that entered a region */
EXP long rv_regions = 0, rv_team_max = 0, rv_criticals = 0, rv_barriers = 0, rv_orders_n = 0;
EXP uint64_t rv_orders[4096];          /* hash of arrival orders at the critical section/barriers, one per region */

typedef void (*fn_t)(void*);
typedef struct { fn_t fn; void *data; char fork, join, bar; volatile long arrive; uint64_t seed; volatile uint64_t order; } ctx_t;
static char crit_tag;
static __thread ctx_t *cur;
static __thread uint64_t rng;

NOTSAN static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x^(x>>30))*0xbf58476d1ce4e5b9ULL; x = (x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
NOTSAN static void jitter(void)
{
	if (!rv_perturb) return;
	rng = mix(rng+1);
	unsigned r = rng & 7;
	if (r < 3) { int i; for (i=0;i<(int)r+1;i++) sched_yield(); }
	else if (r < 6) { struct timespec t = {0, (long)((rng>>8)%300000)}; nanosleep(&t,0); }
}
NOTSAN static void arrive(void)
{
	ctx_t *c = cur;
	if (!c) return;
	uint64_t t = (uint64_t) omp_get_thread_num()+1, o, n;
	do { o = c->order; n = mix(o*31+t); } while (!__sync_bool_compare_and_swap(&c->order,o,n));
}
NOTSAN static void tramp(void *v)
{
	ctx_t *c = v, *old = cur;
	uint64_t oldr = rng;
	cur = c;
	rng = mix(c->seed ^ ((uint64_t)omp_get_thread_num()<<20));
	ACQ(&c->fork);
	if (omp_get_thread_num()==0) {
		if (omp_get_num_threads()>rv_team_max) rv_team_max = omp_get_num_threads();
		if (omp_get_num_threads()<rv_team_min) rv_team_min = omp_get_num_threads();
	}
	__sync_fetch_and_add(&rv_team_entered,1);
	jitter();
	c->fn(c->data);
	REL(&c->join);
	cur = old; rng = oldr;
}
void __real_GOMP_parallel(fn_t,void*,unsigned,unsigned);
NOTSAN void __wrap_GOMP_parallel(fn_t fn, void *data, unsigned n, unsigned flags)
{
	ctx_t c = {fn,data,0,0,0,0,0,0};
	c.seed = mix((uint64_t)rv_perturb*1000003u + (uint64_t)rv_regions);
	REL(&c.fork);
	__real_GOMP_parallel(tramp,&c,n,flags);
	ACQ(&c.join);
	__sync_fetch_and_add(&rv_regions,1);
	long i = __sync_fetch_and_add(&rv_orders_n,1);
	rv_orders[i&4095] = c.order;
}
void __real_GOMP_critical_start(void); void __real_GOMP_critical_end(void);
void __real_GOMP_critical_name_start(void**); void __real_GOMP_critical_name_end(void**);
void __real_GOMP_atomic_start(void); void __real_GOMP_atomic_end(void);
NOTSAN void __wrap_GOMP_critical_start(void) { jitter(); __real_GOMP_critical_start(); ACQ(&crit_tag); arrive(); __sync_fetch_and_add(&rv_criticals,1); }
NOTSAN void __wrap_GOMP_critical_end(void) { REL(&crit_tag); __real_GOMP_critical_end(); }
NOTSAN void __wrap_GOMP_critical_name_start(void **p) { jitter(); __real_GOMP_critical_name_start(p); ACQ(p); arrive(); __sync_fetch_and_add(&rv_criticals,1); }
NOTSAN void __wrap_GOMP_critical_name_end(void **p) { REL(p); __real_GOMP_critical_name_end(p); }
static char atom_tag;
NOTSAN void __wrap_GOMP_atomic_start(void) { __real_GOMP_atomic_start(); ACQ(&atom_tag); }
NOTSAN void __wrap_GOMP_atomic_end(void) { REL(&atom_tag); __real_GOMP_atomic_end(); }
static char orphan_bar;
NOTSAN static char *bar(void) { return cur ? &cur->bar : &orphan_bar; }
#define BARRIER0(NAME) void __real_##NAME(void); NOTSAN void __wrap_##NAME(void) { jitter(); arrive(); __sync_fetch_and_add(&rv_barriers,1); REL(bar()); __real_##NAME(); ACQ(bar()); }
BARRIER0(GOMP_barrier)
BARRIER0(GOMP_loop_end)
BARRIER0(GOMP_sections_end)
_Bool __real_GOMP_single_start(void);
NOTSAN _Bool __wrap_GOMP_single_start(void) { return __real_GOMP_single_start(); }
void *__real_GOMP_single_copy_start(void); void __real_GOMP_single_copy_end(void*);
NOTSAN void *__wrap_GOMP_single_copy_start(void) { void *p = __real_GOMP_single_copy_start(); if (p) ACQ(bar()); return p; }
NOTSAN void __wrap_GOMP_single_copy_end(void *p) { REL(bar()); __real_GOMP_single_copy_end(p); }
/* omp_set_lock & co. */
void __real_omp_set_lock(omp_lock_t*); void __real_omp_unset_lock(omp_lock_t*); int __real_omp_test_lock(omp_lock_t*);
NOTSAN void __wrap_omp_set_lock(omp_lock_t *l) { __real_omp_set_lock(l); ACQ(l); }
NOTSAN void __wrap_omp_unset_lock(omp_lock_t *l) { REL(l); __real_omp_unset_lock(l); }
NOTSAN int __wrap_omp_test_lock(omp_lock_t *l) { int r = __real_omp_test_lock(l); if (r) ACQ(l); return r; }
/* ordered */
static char ord_tag;
void __real_GOMP_ordered_start(void); void __real_GOMP_ordered_end(void);
NOTSAN void __wrap_GOMP_ordered_start(void) { __real_GOMP_ordered_start(); ACQ(&ord_tag); }
NOTSAN void __wrap_GOMP_ordered_end(void) { REL(&ord_tag); __real_GOMP_ordered_end(); }
/* combined parallel loops */
#define PLOOP(NAME) void __real_##NAME(fn_t,void*,unsigned,long,long,long,long,unsigned); \
NOTSAN void __wrap_##NAME(fn_t fn, void *data, unsigned n, long a, long b, long i, long ch, unsigned flags) \
{ ctx_t c = {fn,data,0,0,0,0,0,0}; c.seed = mix((uint64_t)rv_perturb*1000003u + (uint64_t)rv_regions); REL(&c.fork); \
  __real_##NAME(tramp,&c,n,a,b,i,ch,flags); ACQ(&c.join); __sync_fetch_and_add(&rv_regions,1); \
  { long j = __sync_fetch_and_add(&rv_orders_n,1); rv_orders[j&4095] = c.order; } }
#define PLOOPR(NAME) void __real_##NAME(fn_t,void*,unsigned,long,long,long,unsigned); \
NOTSAN void __wrap_##NAME(fn_t fn, void *data, unsigned n, long a, long b, long i, unsigned flags) \
{ ctx_t c = {fn,data,0,0,0,0,0,0}; c.seed = mix((uint64_t)rv_perturb*1000003u + (uint64_t)rv_regions); REL(&c.fork); \
  __real_##NAME(tramp,&c,n,a,b,i,flags); ACQ(&c.join); __sync_fetch_and_add(&rv_regions,1); \
  { long j = __sync_fetch_and_add(&rv_orders_n,1); rv_orders[j&4095] = c.order; } }
PLOOP(GOMP_parallel_loop_static)
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
PLOOPR(GOMP_parallel_loop_runtime)
PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
