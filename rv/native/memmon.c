/* Allocation monitor: the library's own calls of malloc & co. are wrapped at link time (--wrap).
   Keeps the set of live blocks, fills new blocks and freed blocks with 0xff (a NaN for a double),
   puts a canary behind each block, and counts: allocations, frees, live blocks/bytes, unknown frees, smashed canaries. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>

void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
void *__real_aligned_alloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t);

#define NB (1u<<20)
#define CANARY 32
#ifndef RV_FILL
#define RV_FILL 0xff
#endif
typedef struct { void *p; size_t n; } ent;
static ent *tab; /* open addressing; p==(void*)1 is a tombstone */
static size_t used;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
__attribute__((visibility("default"))) long rvmem_allocs, rvmem_frees, rvmem_live, rvmem_live_bytes, rvmem_peak_bytes, rvmem_unknown_frees, rvmem_smashed, rvmem_zero_size;

static size_t h(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x>>33; x *= 0xff51afd7ed558ccdULL; x ^= x>>29; return x & (NB-1); }
static void add(void *p, size_t n)
{
	if (!p) return;
	pthread_mutex_lock(&mu);
	if (!tab) tab = __real_calloc(NB,sizeof(ent));
	if (used < NB/2) {
		size_t i = h(p);
		while (tab[i].p && tab[i].p!=(void*)1) i = (i+1)&(NB-1);
		if (!tab[i].p) used++;
		tab[i].p = p; tab[i].n = n;
	}
	rvmem_allocs++; rvmem_live++; rvmem_live_bytes += n;
	if (!n) rvmem_zero_size++;
	if (rvmem_live_bytes > rvmem_peak_bytes) rvmem_peak_bytes = rvmem_live_bytes;
	pthread_mutex_unlock(&mu);
}
static int del(void *p, size_t *n)
{
	int found = 0;
	pthread_mutex_lock(&mu);
	if (tab) {
		size_t i = h(p), k = 0;
		while (tab[i].p && k++ < NB) {
			if (tab[i].p==p) { *n = tab[i].n; tab[i].p = (void*)1; found = 1; break; }
			i = (i+1)&(NB-1);
		}
	}
	if (found) { rvmem_frees++; rvmem_live--; rvmem_live_bytes -= *n; }
	else rvmem_unknown_frees++;
	pthread_mutex_unlock(&mu);
	return found;
}
static void seal(void *p, size_t n) { if (p) memset((char*)p+n,0xA5,CANARY); }
static void checkc(void *p, size_t n)
{
	unsigned char *c = (unsigned char*)p+n; int i;
	for (i=0;i<CANARY;i++) if (c[i]!=0xA5) { __sync_fetch_and_add(&rvmem_smashed,1); break; }
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n+CANARY); if (p) { memset(p,RV_FILL,n); seal(p,n); } add(p,n); return p; }
void *__wrap_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a,b,&n)) return 0; void *p = __real_calloc(1,n+CANARY); seal(p,n); add(p,n); return p; }
void __wrap_free(void *p)
{
	size_t n = 0;
	if (!p) return;
	if (del(p,&n)) { checkc(p,n); memset(p,RV_FILL,n); }
	__real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
	void *q; size_t m = 0;
	if (!p) return __wrap_malloc(n);
	if (!del(p,&m)) return __real_realloc(p,n);
	checkc(p,m);
	q = __real_realloc(p,n+CANARY);
	if (q && n>m) memset((char*)q+m,RV_FILL,n-m);
	seal(q,n); add(q,n);
	return q;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = 0; if (__real_posix_memalign(&p,a<8?8:a,n+CANARY)) return 0; memset(p,RV_FILL,n); seal(p,n); add(p,n); return p; }
int __wrap_posix_memalign(void **r, size_t a, size_t n) { int e = __real_posix_memalign(r,a,n+CANARY); if (!e) { memset(*r,RV_FILL,n); seal(*r,n); add(*r,n); } return e; }
