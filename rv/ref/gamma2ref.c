/* Golden one-loop kernels of the second-order propagators, in all regimes, at two precisions.
   The .inc files are pinned copies (see DESIGN.md, C11: validated against the angular average of the SPT F4 kernel). */
#include <stddef.h>
#include <math.h>
#include <tgmath.h>
#ifndef RT
#define RT double
#endif
typedef RT histo_t;
#undef M_PI
#define M_PI ((histo_t) 3.14159265358979323846264338327950288L)
#define MAX(a, b) (((a) > (b)) ? (a) : (b))
#define MIN(a, b) (((a) < (b)) ? (a) : (b))
#define MAX3(a, b, c) MAX(MAX((a), (b)), MAX((b), (c)))
#define MIN3(a, b, c) MIN(MIN((a), (b)), MIN((b), (c)))
#define EPS 3.e-14
typedef enum {DELTA, THETA} FLAG;
#define my_abs(x) fabs((histo_t)(x))
#define my_log(x) log((histo_t)(x))
#define my_exp(x) exp((histo_t)(x))
#define my_pow(x,y) pow((histo_t)(x),(histo_t)(y))
#define my_sqrt(x) sqrt((histo_t)(x))
static histo_t power(histo_t base,size_t e) { histo_t r = 1.; while (e) { if (e & 1) r *= base; e /= 2; base *= base; } return r; }
static void powers(histo_t x,histo_t *tab,const size_t n) { size_t i; tab[0] = 1.; tab[1] = x; for (i=2;i<n;i++) tab[i] = tab[i-1]*x; }
#include "kernels.inc"
#define NPOWERS 20
#include "gamma2d.inc"
#undef NPOWERS
#define NPOWERS 20
#include "gamma2t.inc"
/* out[i] = kernel(k1,k2,k3,q) of field (0 delta, 1 theta) */
void rv_gamma2(int field, long n, const double *k1, const double *k2, const double *k3, const double *q, double *out)
{
	long i;
#pragma omp parallel for schedule(static)
	for (i=0;i<n;i++) out[i] = (double) (field ? kernel_gamma2t(k1[i],k2[i],k3[i],q[i]) : kernel_gamma2d(k1[i],k2[i],k3[i],q[i]));
}
/* regime used by the kernel: 0 reg3rd(q~k), 1 lowk, 2 highk, 3 reg3rd(k1~k2), 4 elongate, 5 coll, 6 exact */
void rv_gamma2_regime(long n, const double *k1_, const double *k2_, const double *k3_, const double *q_, int *out)
{
	long i;
	for (i=0;i<n;i++) {
		double k1 = k1_[i], k2 = k2_[i], k3 = k3_[i], q = q_[i]; int r = 6;
		if ((fabs(k1/q-1.)<1.e-3)||(fabs(k2/q-1.)<1.e-3)||(fabs(k3/q-1.)<1.e-3)) r = 0;
		else if (q>10.*MAX3(k1,k2,k3)) r = 1;
		else if (q<0.1*MIN3(k1,k2,k3)) r = 2;
		else if (fabs(k2/k1-1.)<2.e-2) r = 3;
		else if ((q>50.*MIN(k1,k2))&&(fabs(k1*k1-k3*k3)<q*q)) r = 4;
		else if ((q>100.*k3)&&(k3<10.*MIN(k1,k2))) r = 5;
		out[i] = r;
	}
}
