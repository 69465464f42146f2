/* Interprets a program of native calls (rv/nat.py, Recorder) on stdin. All arrays are allocated here with their exact size, outputs uninitialised.
   Under MemorySanitizer, every output is checked for initialisation after the call that computes it. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
typedef double *A;
static long line = 0, checked = 0, calls = 0;

static void *sym(const char *prefix, const char *name)
{
	char s[256];
	snprintf(s,sizeof(s),"%s%s",prefix,name);
	void *f = dlsym(RTLD_DEFAULT,s);
	if (!f) { fprintf(stderr,"driver: no function %s\n",s); exit(3); }
	calls++;
	return f;
}
static void word(char *w) { if (scanf("%255s",w)!=1) { fprintf(stderr,"driver: program ends early\n"); exit(3); } if (!strcmp(w,"-")) w[0] = 0; }
static long integer(void) { char w[256]; word(w); return atol(w); }
static double real(void) { char w[256]; word(w); return strtod(w,0); }
static A array(size_t n) { A a = malloc(n*sizeof(double)); size_t i; for (i=0;i<n;i++) a[i] = real(); return a; }
static void check(A a, size_t n, const char *what)
{
	checked += n;
#ifdef MSAN
	long i = n ? __msan_test_shadow(a,n*sizeof(double)) : -1;
	if (i>=0) { fprintf(stderr,"UNINITIALISED %s: value %ld of %zu is not computed or depends on uninitialised memory (line %ld)\n",what,i/8,n,line); exit(87); }
#else
	(void) a; (void) what;
#endif
}

static struct { const char *name; int ncol, last; size_t nk; A k; A col[10]; } T[6] = {
	{"spectrum_1loop",5,1,0,0,{0}}, {"spectrum_2loop",10,1,0,0,{0}}, {"bias_1loop",10,1,0,0,{0}}, {"A_1loop",3,5,0,0,{0}}, {"A_2loop",3,5,0,0,{0}}, {"B",3,9,0,0,{0}}};
static int find(const char *n) { int i; for (i=0;i<6;i++) if (!strcmp(T[i].name,n)) return i; exit(3); }

int main(void)
{
	char w[256], a[256], b[256];
	A link = 0, linp = 0, bk[2] = {0,0}, bp[2] = {0,0};
	while (scanf("%255s",w)==1) {
		line++;
		if (!strcmp(w,"spec")) {
			size_t n = integer(); A k = array(n), p = array(n);
			((void (*)(A,A,size_t)) sym("set_pk_lin",""))(k,p,n);
			free(link); free(linp); link = k; linp = p;
		}
		else if (!strcmp(w,"q")) {
			word(a); size_t n = integer(); double lo = real(), hi = real(); word(b);
			((void (*)(size_t,double,double,char*)) sym("set_precision_",a))(n,lo,hi,b);
		}
		else if (!strcmp(w,"mu")) { word(a); size_t n = integer(); ((void (*)(size_t,char*)) sym("set_precision_",a))(n,""); }
		else if (!strcmp(w,"mc")) { word(a); double lo = real(), hi = real(); word(b); ((void (*)(double,double,char*)) sym("set_precision_",a))(lo,hi,b); }
		else if (!strcmp(w,"verbosity")) { word(a); ((void (*)(char*)) sym("set_verbosity",""))(a); }
		else if (!strcmp(w,"terms")) {
			word(a); int t = find(a), c;
			A oldk = T[t].k, old[10]; memcpy(old,T[t].col,sizeof(old));
			size_t n = T[t].nk = integer();
			A *l = T[t].col; T[t].k = array(n);
			for (c=0;c<T[t].ncol;c++) l[c] = malloc(n*sizeof(double)*(c==T[t].ncol-1?T[t].last:1));
			void *f = sym("set_terms_",a);
			if (T[t].ncol==3) ((void (*)(size_t,A,A,A,A)) f)(n,T[t].k,l[0],l[1],l[2]);
			else if (T[t].ncol==5) ((void (*)(size_t,A,A,A,A,A,A)) f)(n,T[t].k,l[0],l[1],l[2],l[3],l[4]);
			else ((void (*)(size_t,A,A,A,A,A,A,A,A,A,A,A)) f)(n,T[t].k,l[0],l[1],l[2],l[3],l[4],l[5],l[6],l[7],l[8],l[9]);
			free(oldk); for (c=0;c<10;c++) free(old[c]);
		}
		else if (!strcmp(w,"run")) {
			char what[300];
			word(a); size_t n = integer(); char x[256]; word(x); word(b); int t = find(a), c;
			void *f = sym("run_terms_",a);
			if (!strncmp(a,"spectrum",8)) ((void (*)(char*,char*,size_t)) f)(x,b,n);
			else ((void (*)(size_t)) f)(n);
			for (c=0;c<T[t].ncol;c++) { snprintf(what,sizeof(what),"column %d of %s",c,a); check(T[t].col[c],T[t].nk*(c==T[t].ncol-1?T[t].last:1),what); }
		}
		else if (!strcmp(w,"assembled")) {
			word(a); int t = find(a); A p = malloc(T[t].nk*sizeof(double));
			((void (*)(A)) sym("",a))(p); check(p,T[t].nk,a); free(p);
		}
		else if (!strcmp(w,"one")) {
			static A lastk, lastp;
			size_t n = integer(); A k = array(n); word(a); word(b); size_t th = integer(); A p = malloc(n*sizeof(double));
			((void (*)(size_t,A,A)) sym("set_spectrum_1loop",""))(n,k,p);
			((void (*)(char*,char*,size_t)) sym("run_spectrum_1loop",""))(a,b,th);
			check(p,n,"run_spectrum_1loop"); free(lastp); free(lastk); lastk = k; lastp = p;
		}
		else if (!strcmp(w,"rerun")) {
			word(a); word(b); size_t th = integer();
			((void (*)(char*,char*,size_t)) sym("run_spectrum_1loop",""))(a,b,th);
		}
		else if (!strcmp(w,"bspec")) {
			word(a); size_t n = integer(); A k = array(n), p = array(n); int i = a[0]=='t';
			((void (*)(char*,char*,size_t,A,A)) sym("set_spectra_B",""))(a,"theta",n,k,p);
			free(bk[i]); free(bp[i]); bk[i] = k; bp[i] = p;
		}
		else if (!strcmp(w,"find")) {
			size_t n = integer(); A k = array(n), p = malloc(n*sizeof(double)); int m = integer();
			((void (*)(A,A,size_t,int)) sym("find_pk_lin",""))(k,p,n,m); check(p,n,"find_pk_lin"); free(k); free(p);
		}
		else if (!strcmp(w,"sigmad2")) {
			size_t n = integer(); A k = array(n), p = malloc(n*sizeof(double)); double uv = real();
			((void (*)(A,A,size_t,double)) sym("calc_running_sigmad2",""))(k,p,n,uv); check(p,n,"calc_running_sigmad2"); free(k); free(p);
		}
		else if (!strcmp(w,"nodes")) {
			double x = real(), y = real(); size_t n = integer(); A k = malloc(n*sizeof(double)), p = malloc(n*sizeof(double));
			((void (*)(double,double,A,A,size_t)) sym("nodes_weights_gauss_legendre",""))(x,y,k,p,n); check(k,n,"nodes"); check(p,n,"weights"); free(k); free(p);
		}
		else if (!strcmp(w,"poly")) {
			double x = real(), r; size_t n = integer(); A k = array(n), p = array(n);
			r = ((double (*)(double,A,A,size_t)) sym("interpol_poly",""))(x,k,p,n); check(&r,1,"interpol_poly"); free(k); free(p);
		}
		else { fprintf(stderr,"driver: unknown word %s\n",w); return 3; }
		fflush(stdout);
	}
	fprintf(stderr,"DONE calls %ld values %ld\n",calls,checked);
	return 0;
}
