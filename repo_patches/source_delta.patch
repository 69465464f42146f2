From 964f0bb604c3692071083ba75770a515047db443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 01/28] fix: linear interpolation at the last tabulated k reads
 past the end of the spectrum

---
 src/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common.c b/src/common.c
index d44ed31..bfa414b 100644
--- a/src/common.c
+++ b/src/common.c
@@ -199,6 +199,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
+			else if (ind==end) pk[ik] = pkin.pk[end];
 			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
 		}
 	}
-- 
2.43.0


From 61bdf53f484022890eadbbf9349f6f8c9c487709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 02/28] fix: interpolated spectrum and running sigma_d^2 are
 wrong when k is not sorted

---
 src/common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common.c b/src/common.c
index bfa414b..7a4b363 100644
--- a/src/common.c
+++ b/src/common.c
@@ -192,6 +192,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		if (k[ik]>kend) pk[ik] = extrapol_pk_highk(pkin,k[ik]);
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
+			if (k[ik]<pkin.k[start]) start = 0; //k is not sorted
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
 			start = ind;
 			if (interpol==POLY) {
@@ -221,6 +222,11 @@ void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff
 			sigmad2[ik] = 0.;
 			continue;
 		}
+		if (kmax < pk_lin.k[iklin]) {
+			//k is not sorted: start again
+			iklin = 0;
+			sigmad2_ = 0.;
+		}
 		for (iklin=iklin;iklin<pk_lin.nk-1;iklin++) {
 			if (kmax < pk_lin.k[iklin+1]) {
 				histo_t pk_kmax = interpol_lin(kmax,pk_lin.k[iklin],pk_lin.k[iklin+1],pk_lin.pk[iklin],pk_lin.pk[iklin+1]);
-- 
2.43.0


From 6b4132d7e9992ca52aa3389bcd2d3523839d0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 03/28] fix: setting terms for no k reads outside of the array

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From dad67b212dc0305bc2e92043e91566d0be02002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 04/28] fix: second run of the B terms without input spectra
 uses freed spectra

---
 src/spectrum_B.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..ffeef40 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -95,6 +95,8 @@ void free_spectra_B()
 {
 	free(pk_dt.pk);
 	free(pk_tt.pk);
+	pk_dt.nk = 0;
+	pk_tt.nk = 0;
 }
 
 void run_terms_B(size_t num_threads)
-- 
2.43.0


From a8d3ba009e201bf58826e7affabd8854816d61fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 05/28] fix: B terms take any spectrum of delta as delta -
 theta

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index ffeef40..44612c5 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From edd46bcb7407d543503d354ca24a6cf144b0b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 06/28] fix: all threads write the shared input spectra of the
 B terms

---
 src/calc_pkcorr_from_B.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..bd38ea1 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -11,6 +11,7 @@
 #define NCOMP 12
 
 static Pk pk_dt,pk_tt;
+#pragma omp threadprivate(pk_dt,pk_tt)
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
 #pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
-- 
2.43.0


From 039846bdd68881492a87594b2229863db6be07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 07/28] fix: range of the first linear spectrum is kept for all
 following Monte Carlo integrals

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 14 ++++++++------
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..119b2db 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -16,7 +16,7 @@
 #define NINCREASE 700
 */
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static INTERPOL interpol_pk_lin = POLY;
@@ -30,12 +30,14 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From ac76c619668e1e1948f8c8d1a9fd0d3e33e2160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 08/28] fix: sign of the cubic term of the expansion of the
 theta 2-loop kernel

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0


From dbac01e5dcb5b3a480c42f428121bdae3cd6954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 09/28] fix: sigma3sq scales as the linear power spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..4cab81f 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -406,7 +406,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From 63cd7ad48aace320a66806295b78f4e380d7747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 10/28] fix: SpectrumNoWiggle.set_terms raises AttributeError

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4cab81f..696932d 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -118,8 +118,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From 0f72098e623e27624e3fb388c9479519695c4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 11/28] fix: B terms interpolation ignores left and right

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 696932d..de64f37 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -572,15 +572,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From 28b8ba87973934e413e8354984779e9431e2cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 12/28] fix: pad_k fails for A and B terms, overwrites all k
 when there is nothing to add at the end

---
 pyregpt/pyregpt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index de64f37..e104dac 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -99,14 +99,17 @@ class Terms(object):
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
+        pad_kwargs = {'constant_values': constant_values} if mode == 'constant' else {}
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
-        self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
+        start, end = slice(0, pad_start), slice(self.size - pad_end, self.size)
+        kstart, kend = slice(0, pad_start), slice(len(k) - pad_end, len(k))
+        self['k'][start] = k[kstart]
+        self['k'][end] = k[kend]
         for key in kwargs:
-            self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            self[key][start] = kwargs[key][kstart]
+            self[key][end] = kwargs[key][kend]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
-- 
2.43.0


From ecaf1a4cf763eb40db90a84d264a7249a406613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 13/28] fix: precision of the A terms at 1 loop is not part of
 all, nor reset by clear

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index e104dac..c0980d2 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -273,11 +273,11 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
-- 
2.43.0


From d2b4176e51c5fe9a1dd33ac7632c04f76534c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 14/28] fix: precision all_pklin raises AttributeError,
 interpolation of the linear spectrum is not reset by clear

---
 pyregpt/pyregpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c0980d2..cd44331 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -296,7 +296,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
@@ -336,6 +336,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From 350fff436715a7c0c1054966a5ac7a1ef6198910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 15/28] fix: running UV cutoff of A and B terms is not part of
 all, nor reset by clear

---
 pyregpt/pyregpt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index cd44331..9649ca7 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -316,10 +316,13 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
-        func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
+        if calculation in ['A_1loop', 'A_2loop']:
+            func = getattr(self.regpt, 'set_precision_{}_sigmad2'.format(calculation))
+        else:
+            func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
         func.argtypes = (self.C_TYPE,)
         func(uvcutoff)
 
-- 
2.43.0


From eebbad9bcb39055c31392c279e6ebd75d2daef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 16/28] fix: any new instance (including copies, B2Loop
 internals) resets the verbosity

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9649ca7..7678e40 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -250,7 +250,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode  # shared by all instances, as the library
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From 61d41dd65db2055dfec709476f54437682d2f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 17/28] fix: deepcopy raises AttributeError without linear
 spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 7678e40..5f246ee 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -328,7 +328,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-- 
2.43.0


From 7b71068c21b4d96b519789989723318dd2b44a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 18/28] fix: instances share the arrays last given to the
 library (dangling, overwritten or strided input and output arrays)

---
 pyregpt/pyregpt.py | 80 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 5f246ee..d97a45a 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -195,6 +195,7 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _registered = {}
 
     def __init__(self, *args, **kwargs):
 
@@ -229,6 +230,7 @@ class PyRegPT(Terms):
 
     def find_pk_lin(self, k, interpol='poly'):
 
+        self._register_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -239,6 +241,7 @@ class PyRegPT(Terms):
 
     def calc_running_sigmad2(self, k, uvcutoff=0.5):
 
+        self._register_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -255,9 +258,34 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        PyRegPT._registered.pop('spectrum_lin', None)
+        self._register_spectrum_lin()
+
+    def _register_spectrum_lin(self):
+        # The library only holds pointers, shared by all instances: make sure they point to (contiguous, living) arrays of self.spectrum_lin
+        if 'spectrum_lin' not in self.__dict__: return
+        arrays = [np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk']]
+        if self._is_registered('spectrum_lin', arrays): return
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self.regpt.set_pk_lin(*arrays, self.spectrum_lin.size)
+        PyRegPT._registered['spectrum_lin'] = arrays
+
+    def _register_terms(self, name):
+        # Same as above, for the arrays of terms
+        for key in self: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        arrays = self.tolist()
+        if self._is_registered(name, arrays): return
+        func = getattr(self.regpt, 'set_terms_' + name)
+        sizes = [self.size * int(np.prod(self.SHAPE.get(key, ()))) for key in self]
+        func.argtypes = (ctypes.c_size_t,) + tuple(ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(size,), flags='C_CONTIGUOUS') for size in sizes)
+        func(self.size, *[array.reshape(-1) for array in arrays])
+        PyRegPT._registered[name] = arrays
+
+    @staticmethod
+    def _is_registered(name, arrays):
+        registered = PyRegPT._registered.get(name, [])
+        return len(registered) == len(arrays) and all(a is b for a, b in zip(registered, arrays))
 
     def set_pk_lin(self, k, pk):
 
@@ -352,12 +380,12 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self._register_terms('spectrum_1loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -386,12 +414,12 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self._register_terms('spectrum_2loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -466,12 +494,12 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self._register_terms('bias_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -501,12 +529,12 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self._register_terms('A_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -529,13 +557,13 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        self._register_terms('A_2loop')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -557,17 +585,18 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
+        self._register_terms('B')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._register_spectrum_lin()
+        self._register_terms('B')
+        k, pk = (np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk)
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -594,6 +623,7 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self._register_spectrum_lin()
         self.spectrum_1loop_dt = Spectrum1Loop()
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
@@ -602,14 +632,16 @@ class B2Loop(B1Loop):
         self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
+        self._register_terms('B')
+        k = np.ascontiguousarray(self.spectrum_lin.k, dtype=self.C_TYPE)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
 
         pk_dt = self.spectrum_1loop_dt.pk()  # why do I have to do that?
         pk_tt = self.spectrum_1loop_tt.pk()
 
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_dt)
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_tt)
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_dt)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk_tt)
 
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From 1c45b85cb04e5e3399a7b8eb9d673650b2a4d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 19/28] fix: precision spectrum_1loop_q raises AttributeError

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index d97a45a..682f916 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -311,6 +311,7 @@ class PyRegPT(Terms):
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
-- 
2.43.0


From c579a883a957fc86b7e27784d3c8ed2d1ef958cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 20/28] fix: terms set by the user are replaced by released
 memory after a one-call spectrum at 1 loop

---
 src/spectrum_1loop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 9b5cfc9..5c0f320 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -129,9 +129,11 @@ void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 	size_t nk = pk_1loop.nk;
 	histo_t *k = pk_1loop.k;
 	size_t size = sizeof(histo_t);
+	Terms1Loop terms_given = terms_1loop;
 	set_terms_spectrum_1loop(nk,k,(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size));
 	run_terms_spectrum_1loop(a_,b_,num_threads);
 	spectrum_1loop(pk_1loop.pk);
 	free_terms_spectrum_1loop();
+	terms_1loop = terms_given; //memory used above has been freed
 }
 
-- 
2.43.0


From eda9e1408587f21b0b5c00dd3cdb8a31e2f7b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:35 +0000
Subject: [PATCH 21/28] fix: calculations crash the process when no linear
 spectrum has been set

---
 pyregpt/pyregpt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 682f916..cf72dcd 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -263,7 +263,9 @@ class PyRegPT(Terms):
 
     def _register_spectrum_lin(self):
         # The library only holds pointers, shared by all instances: make sure they point to (contiguous, living) arrays of self.spectrum_lin
-        if 'spectrum_lin' not in self.__dict__: return
+        if 'spectrum_lin' not in self.__dict__:
+            if 'spectrum_lin' not in PyRegPT._registered: raise ValueError('No linear power spectrum has been set.')
+            return
         arrays = [np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk']]
         if self._is_registered('spectrum_lin', arrays): return
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
@@ -284,8 +286,8 @@ class PyRegPT(Terms):
 
     @staticmethod
     def _is_registered(name, arrays):
-        registered = PyRegPT._registered.get(name, [])
-        return len(registered) == len(arrays) and all(a is b for a, b in zip(registered, arrays))
+        registered = PyRegPT._registered.get(name, None)
+        return registered is not None and len(registered) == len(arrays) and all(a is b for a, b in zip(registered, arrays))
 
     def set_pk_lin(self, k, pk):
 
-- 
2.43.0


From 502de78c383e5d24ce4054decd9e34c05e93aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 22/28] fix: unaligned arrays of the linear spectrum are given
 as such to the library

---
 pyregpt/pyregpt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index cf72dcd..a772d0e 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -266,7 +266,7 @@ class PyRegPT(Terms):
         if 'spectrum_lin' not in self.__dict__:
             if 'spectrum_lin' not in PyRegPT._registered: raise ValueError('No linear power spectrum has been set.')
             return
-        arrays = [np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk']]
+        arrays = [np.require(self.spectrum_lin[key], dtype=self.C_TYPE, requirements=['C', 'A']) for key in ['k', 'pk']]
         if self._is_registered('spectrum_lin', arrays): return
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
@@ -275,7 +275,7 @@ class PyRegPT(Terms):
 
     def _register_terms(self, name):
         # Same as above, for the arrays of terms
-        for key in self: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        for key in self: self[key] = np.require(self[key], dtype=self.C_TYPE, requirements=['C', 'A'])
         arrays = self.tolist()
         if self._is_registered(name, arrays): return
         func = getattr(self.regpt, 'set_terms_' + name)
@@ -595,7 +595,7 @@ class B1Loop(PyRegPT):
 
         self._register_spectrum_lin()
         self._register_terms('B')
-        k, pk = (np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk'])
+        k, pk = (np.require(self.spectrum_lin[key], dtype=self.C_TYPE, requirements=['C', 'A']) for key in ['k', 'pk'])
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, k, pk)
@@ -636,7 +636,7 @@ class B2Loop(B1Loop):
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
         self._register_terms('B')
-        k = np.ascontiguousarray(self.spectrum_lin.k, dtype=self.C_TYPE)
+        k = np.require(self.spectrum_lin.k, dtype=self.C_TYPE, requirements=['C', 'A'])
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
 
-- 
2.43.0


From ad0c312111dce7f11d23a03d67728ad67ce1b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:05 +0000
Subject: [PATCH 23/28] fix: interpol_poly reads outside of strided or empty
 arrays

---
 pyregpt/pyregpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a772d0e..70c25dc 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -215,8 +215,9 @@ class PyRegPT(Terms):
 
     def interpol_poly(self, x, tabx, taby):
 
+        tabx, taby = (np.require(tab, dtype=self.C_TYPE, requirements=['C', 'A']) for tab in [tabx, taby])
         nx = len(tabx)
-        assert nx == len(taby)
+        assert nx == len(taby) and nx > 0
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
         self.regpt.interpol_poly.argtypes = (self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.interpol_poly.restype = self.C_TYPE
-- 
2.43.0


From 2d9d0a1381a12bcd0fa8698411166551989b98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 24/28] fix: keep the existing rows of linear spectrum and
 dispersion in pad_k

pad_k replaced the whole columns pk_lin and sigmad2 by values calculated with the default
cutoff and interpolation, changing rows calculated with other settings.
---
 pyregpt/pyregpt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 70c25dc..6b94a52 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -363,10 +363,11 @@ class PyRegPT(Terms):
         if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
-    def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-        super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values)
-        if 'pk_lin' in self.FIELDS: self['pk_lin'] = self.find_pk_lin(self.k, interpol=interpol)
-        if 'sigmad2' in self.FIELDS: self['sigmad2'] = self.calc_running_sigmad2(self.k)
+    def pad_k(self, k, mode='constant', constant_values=0., interpol='poly', uvcutoff=0.5):
+        columns = {}
+        if 'pk_lin' in self.FIELDS: columns['pk_lin'] = self.find_pk_lin(k, interpol=interpol)
+        if 'sigmad2' in self.FIELDS: columns['sigmad2'] = self.calc_running_sigmad2(k, uvcutoff=uvcutoff)
+        super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values, **columns)
 
     def clear(self):
         #To reset all precision settings
-- 
2.43.0


From 3094ee2af1ae2a9b7a240928a5c7985985e6fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:17 +0000
Subject: [PATCH 25/28] fix: A terms at 1 loop have no rows until they are
 calculated

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 6b94a52..c18c2f8 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -535,6 +535,7 @@ class A1Loop(PyRegPT):
 
         self.zeros(k=k, dtype=self.C_TYPE)
         self._register_terms('A_1loop')
+        self.reshape()
 
     def run_terms(self, nthreads=8):
 
-- 
2.43.0


From 598ff433a36cca55645656594396182d4d1d4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 26/28] fix: raise when a column of terms is missing, instead
 of passing fewer arguments to the library

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c18c2f8..a8fe7ee 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -276,7 +276,7 @@ class PyRegPT(Terms):
 
     def _register_terms(self, name):
         # Same as above, for the arrays of terms
-        for key in self: self[key] = np.require(self[key], dtype=self.C_TYPE, requirements=['C', 'A'])
+        for key in self.FIELDS: self[key] = np.require(self[key], dtype=self.C_TYPE, requirements=['C', 'A'])
         arrays = self.tolist()
         if self._is_registered(name, arrays): return
         func = getattr(self.regpt, 'set_terms_' + name)
-- 
2.43.0


From ce6e346e4edc3cfd1fea946c2798045a6da2a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:02 +0000
Subject: [PATCH 27/28] fix: raise when the linear power spectrum has fewer
 than two points, instead of reading out of its bounds

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a8fe7ee..fb68084 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -268,6 +268,7 @@ class PyRegPT(Terms):
             if 'spectrum_lin' not in PyRegPT._registered: raise ValueError('No linear power spectrum has been set.')
             return
         arrays = [np.require(self.spectrum_lin[key], dtype=self.C_TYPE, requirements=['C', 'A']) for key in ['k', 'pk']]
+        if self.spectrum_lin.size < 2: raise ValueError('The linear power spectrum should have at least two points.')
         if self._is_registered('spectrum_lin', arrays): return
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-- 
2.43.0


From 8305ad3727f0e898a39e838dad8131215f9a397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:56 +0000
Subject: [PATCH 28/28] fix: run_terms_B without input spectra left the
 spectrum given to set_spectrum_1loop pointing to freed memory

---
 src/common.h         | 2 ++
 src/spectrum_1loop.c | 5 +++++
 src/spectrum_B.c     | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/common.h b/src/common.h
index 013a56e..a4be921 100644
--- a/src/common.h
+++ b/src/common.h
@@ -203,6 +203,8 @@ void calc_pk_B(histo_t k,histo_t* pk_B);
 
 // spectrum 1 loop
 
+Pk get_spectrum_1loop();
+
 void set_spectrum_1loop(size_t nk,histo_t* k,histo_t* pk);
 
 void run_spectrum_1loop(char* a_,char* b_,size_t num_threads);
diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 5c0f320..b563f72 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -124,6 +124,11 @@ void set_spectrum_1loop(size_t nk,histo_t* k,histo_t* pk)
 	pk_1loop.pk = pk;	
 }
 
+Pk get_spectrum_1loop()
+{
+	return pk_1loop;
+}
+
 void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 {
 	size_t nk = pk_1loop.nk;
diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 44612c5..84f9b66 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -75,6 +75,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 static void run_spectra_B_1loop(size_t num_threads)
 {
 	size_t size = sizeof(histo_t);
+	Pk pk_given = get_spectrum_1loop();
 
 	pk_dt.nk = pk_lin.nk;
 	pk_dt.k = pk_lin.k;
@@ -89,6 +90,7 @@ static void run_spectra_B_1loop(size_t num_threads)
 	
 	set_spectrum_1loop(pk_tt.nk,pk_tt.k,pk_tt.pk);
 	run_spectrum_1loop("theta","theta",num_threads);
+	set_spectrum_1loop(pk_given.nk,pk_given.k,pk_given.pk); //memory used above will be freed
 }
 
 void free_spectra_B()
-- 
2.43.0

