/* Integrator linked into every instrumented library in place of Cuba.
   Default: N-point rank-1 (Kronecker) rule. With a hook installed, the hook decides and may probe the integrand. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "cuba.h"

typedef struct {
	int ndim, ncomp, nvec, flags, seed, mineval, maxeval, nnew, nmin;
	double epsrel, epsabs, flatness;
	void *userdata;
	integrand_t integrand;
} rv_suave_call;

typedef void (*rv_suave_hook_t)(const rv_suave_call *call, double *integral);

__attribute__((visibility("default"))) long rv_suave_points = 400;
__attribute__((visibility("default"))) long rv_suave_calls = 0;
__attribute__((visibility("default"))) long rv_suave_nonfinite = 0;
static rv_suave_hook_t hook = 0;

__attribute__((visibility("default"))) void rv_suave_set_hook(rv_suave_hook_t h) { hook = h; }

static void kronecker(const rv_suave_call *c, double *integral)
{
	static const double a[8] = {0.8566748838545029, 0.733891856627126, 0.6287067210378087, 0.5385972572236101,
		0.46140201139, 0.3952694, 0.33861558, 0.29008172};
	double x[16], f[64];
	long i; int j;
	for (j=0;j<c->ncomp;j++) integral[j] = 0.;
	for (i=0;i<rv_suave_points;i++) {
		for (j=0;j<c->ndim;j++) { double v = 0.5 + (i+1)*a[j%8]; x[j] = v-floor(v); }
		memset(f,0xff,sizeof(f));
		c->integrand(&c->ndim,x,&c->ncomp,f,c->userdata);
		for (j=0;j<c->ncomp;j++) { if (!isfinite(f[j])) rv_suave_nonfinite++; integral[j] += f[j]; }
	}
	for (j=0;j<c->ncomp;j++) integral[j] /= rv_suave_points;
}

void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
	const cubareal epsrel, const cubareal epsabs, const int flags, const int seed,
	const int mineval, const int maxeval, const int nnew, const int nmin, const cubareal flatness,
	const char *statefile, void *spin, int *nregions, int *neval, int *fail,
	cubareal integral[], cubareal error[], cubareal prob[])
{
	rv_suave_call c = {ndim,ncomp,nvec,flags,seed,mineval,maxeval,nnew,nmin,epsrel,epsabs,flatness,userdata,integrand};
	int j;
	(void) statefile; (void) spin;
	__sync_fetch_and_add(&rv_suave_calls,1);
	for (j=0;j<ncomp;j++) { integral[j] = 0.; error[j] = 0.; prob[j] = 0.; }
	*nregions = 1; *neval = (int) rv_suave_points; *fail = 0;
	if (flags & 3) printf("Suave input parameters: ndim %d ncomp %d\n",ndim,ncomp); /* as Cuba */
	if (hook) hook(&c,integral);
	else kronecker(&c,integral);
}

void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
	const cubareal epsrel, const cubareal epsabs, const int flags, const int seed,
	const int mineval, const int maxeval, const int nstart, const int nincrease, const int nbatch, const int gridno,
	const char *statefile, void *spin, int *neval, int *fail,
	cubareal integral[], cubareal error[], cubareal prob[])
{
	int nregions;
	(void) nincrease; (void) nbatch; (void) gridno;
	Suave(ndim,ncomp,integrand,userdata,nvec,epsrel,epsabs,flags,seed,mineval,maxeval,nstart,2,5.,statefile,spin,&nregions,neval,fail,integral,error,prob);
}

__attribute__((visibility("default"))) long rv_suave_cores = -1; /* last number of processes asked for */
void cubacores(const int n, const int p) { (void) p; rv_suave_cores = n; }
void cubaaccel(const int n, const int p) { (void) n; (void) p; }
