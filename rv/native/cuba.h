/* Stand-in for the header of Cuba 4.1: the sandbox has no Cuba, so the checks link their own integrator (suave.c). */
#ifndef RV_CUBA_H
#define RV_CUBA_H
typedef double cubareal;
typedef int (*integrand_t)(const int *ndim, const cubareal x[], const int *ncomp, cubareal f[], void *userdata);
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
	const cubareal epsrel, const cubareal epsabs, const int flags, const int seed,
	const int mineval, const int maxeval, const int nnew, const int nmin, const cubareal flatness,
	const char *statefile, void *spin, int *nregions, int *neval, int *fail,
	cubareal integral[], cubareal error[], cubareal prob[]);
void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
	const cubareal epsrel, const cubareal epsabs, const int flags, const int seed,
	const int mineval, const int maxeval, const int nstart, const int nincrease, const int nbatch, const int gridno,
	const char *statefile, void *spin, int *neval, int *fail,
	cubareal integral[], cubareal error[], cubareal prob[]);
void cubacores(const int n, const int p);
void cubaaccel(const int n, const int p);
#endif
