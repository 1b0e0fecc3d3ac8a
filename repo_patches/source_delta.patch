From 4a09f3910adadc1a35d88a98586a7e4f9b545675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 01/62] fix: parity sign of the TT and EE/EB/BE/BB blocks in
 T-E-B coupling matrices with odd spins

---
 src/nmt_master.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..c478dde 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1092,8 +1092,13 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
     int ll2,ll3;
     int pe1=pure_e1,pe2=pure_e2,pb1=pure_b1,pb2=pure_b2;
     int sign_overall=1;
-    if((spin1+spin2) & 1)
-      sign_overall=-1;
+    int sign_0s=1;
+    if((spin1+spin2) & 1) {
+      if(w->ncls==7) //Only the TE and TB blocks have odd parity in this case
+        sign_0s=-1;
+      else
+        sign_overall=-1;
+    }
 
 #pragma omp for schedule(dynamic)
     for(ll2=0;ll2<=w->lmax;ll2++) {
@@ -1117,8 +1122,8 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
         }
         if(w->ncls==7) {
           w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
-          w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
-          w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
+          w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=sign_0s*fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
+          w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=sign_0s*fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
           w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
           w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
           w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
-- 
2.43.0


From 04be6906f6a5e896bbad3e83ad964f7558855147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 02/62] fix: size Wigner-3j buffers by the larger of lmax and
 lmax_mask

---
 src/nmt_master.c | 72 ++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index c478dde..08fa7f9 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -229,11 +229,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -246,18 +246,18 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
       for(il3=0;il3<2;il3++) {
         int ll3=l3_list[il3];
         int l1,lmin_here,lmax_here;
-	int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-	int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
+	int lmin_00=0,lmax_00=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -511,18 +511,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -532,28 +532,28 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
       for(ll3=lstart;ll3<=lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
 	int l1,lmin_here,lmax_here;
 	int l3fac=2*ll3+1;
-	int lmin_ss1=0,lmax_ss1=2*(lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(lmax_mask+1)+1;
-	int lmin_ss1a=0,lmax_ss1a=2*(lmax_mask+1)+1;
-	int lmin_ss2a=0,lmax_ss2a=2*(lmax_mask+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss1a=0,lmax_ss1a=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss2a=0,lmax_ss2a=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
 	lmin_here=abs(ll2-ll3);
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(lmax,lmax_mask)+1));
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -768,16 +768,16 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
+      wigner_02=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -788,11 +788,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         l3_start=ll2;
       for(ll3=l3_start;ll3<=l3_end;ll3++) {
         int l1,lmin_here,lmax_here;
-        int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-        int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-        int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
-        int lmin_12=0,lmax_12=2*(c->lmax_mask+1)+1;
-        int lmin_02=0,lmax_02=2*(c->lmax_mask+1)+1;
+        int lmin_00=0,lmax_00=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_12=0,lmax_12=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_02=0,lmax_02=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
@@ -811,18 +811,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From 91f1432464fcdbd4e59e608fc2798e7645dd712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 03/62] fix: E/B purification with lmax_mask different from
 lmax

---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..35bf93b 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,11 +472,11 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls = np.arange(max(self.ainfo.lmax, self.ainfo_mask.lmax)+1)
         # The minus sign is because of the definition of E-modes
         fl = -np.sqrt((ls+1.0)*ls)
         walm = hp.almxfl(alm_mask, fl,
-- 
2.43.0


From ab60a68bbb69efc5d346e0c7a13c918d527ec3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 04/62] fix: purification terms in the coupling of a purified
 spin-2 second field with a different-spin first field

---
 src/nmt_master.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 08fa7f9..7f80d24 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -887,12 +887,17 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
               if(c->has_ss) {
                 double wfac_ispure[3];
                 int suml=l1+ll2+ll3;
+                flouble wp=wss1,wnp=wss2; //Only spin-2 fields can be purified
+                if(has_ss2 && (c->s2==2)) {
+                  wp=wss2;
+                  wnp=wss1;
+                }
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
                 if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                  wfac_ispure[1]=wp+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=wnp*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From 4bb24b2cad52935bd4588b46b384445a8601bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 05/62] fix: decouple_cell with data, bias and noise spectra of
 different (sufficient) lengths

---
 pymaster/workspaces.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..0abb9cc 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -435,6 +435,8 @@ class NmtWorkspace(object):
             raise ValueError("Input power spectrum has wrong shape. "
                              f"Expected ({self.wsp.ncls}, {self.wsp.lmax+1}), "
                              f"but got {cl_in.shape}")
+        # Shorten C_ells if they're too long
+        cl_in = np.array(cl_in)[:, :self.wsp.lmax+1]
         if cl_bias is not None:
             if (len(cl_bias) != self.wsp.ncls) or \
                (len(cl_bias[0]) < self.wsp.lmax + 1):
@@ -442,7 +444,7 @@ class NmtWorkspace(object):
                     "Input bias power spectrum has wrong shape. "
                     f"Expected ({self.wsp.ncls}, {self.wsp.lmax+1}), "
                     f"but got {cl_bias.shape}")
-            clb = cl_bias.copy()
+            clb = np.array(cl_bias)[:, :self.wsp.lmax+1]
         else:
             clb = np.zeros_like(cl_in)
         if cl_noise is not None:
@@ -452,7 +454,7 @@ class NmtWorkspace(object):
                     "Input noise power spectrum has wrong shape. "
                     f"Expected ({self.wsp.ncls}, {self.wsp.lmax+1}), "
                     f"but got {cl_noise.shape}")
-            cln = cl_noise.copy()
+            cln = np.array(cl_noise)[:, :self.wsp.lmax+1]
         else:
             cln = np.zeros_like(cl_in)
 
-- 
2.43.0


From 0dd2320d07e8a8e7b4116687a6711a5f21e72d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 06/62] fix: define elements outside all bandpowers in coupled
 Gaussian covariance

---
 src/nmt_covar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..9740ae1 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -108,6 +108,9 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
 
+  //Multipoles outside of all bandpowers are not computed below
+  memset(covar_out,0,(size_t)(wa->ncls*(cw->lmax+1))*wb->ncls*(cw->lmax+1)*sizeof(flouble));
+
 #pragma omp parallel default(none)			\
   shared(cw,spin_a,spin_b,spin_c,spin_d)                \
   shared(wa,wb,clac,clad,clbc,clbd)			\
-- 
2.43.0


From 32208d501be790d8bc4492983576552dcb2281da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 07/62] fix: refuse to update beams or bins of a workspace
 without a (unbinned) coupling matrix

---
 pymaster/workspaces.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 0abb9cc..5c1b0c0 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -180,6 +180,11 @@ class NmtWorkspace(object):
         if ((not b1arr) or (not b2arr)):
             raise ValueError("The new beams must be provided as arrays")
 
+        if self.wsp is None:
+            raise ValueError("Can't update beams without first computing "
+                             "the mode-coupling matrix")
+        self.check_unbinned()
+
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
             raise ValueError("The new beams must go up to ell = %d" % lmax)
@@ -198,6 +203,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 814783e510eaadd98140004bdb9fddcfd2831b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 08/62] fix: reading damaged or wrong workspace files (unset
 sizes, inconsistent tables, open files left behind)

---
 src/nmt_io.c | 376 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 245 insertions(+), 131 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..0dee31f 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -2,6 +2,51 @@
 #include "utils.h"
 #include <fitsio.h>
 
+//Flag image HDUs that don't have the expected 2D shape
+static void check_img_size(fitsfile *fptr,long n1,long n2,int *status)
+{
+  int naxis=0;
+  long naxes[2]={0,0};
+  fits_get_img_dim(fptr,&naxis,status);
+  fits_get_img_size(fptr,2,naxes,status);
+  if((*status==0) && ((naxis!=2) || (naxes[0]!=n1) || (naxes[1]!=n2)))
+    *status=BAD_DIMEN;
+}
+
+//Read a permutation of n_el elements (MCM_PERM HDU)
+static gsl_permutation *nmt_permutation_fromhdus(fitsfile *fptr,long n_el,int *status)
+{
+  long ii;
+  int naxis=0;
+  long naxes[1]={0},fpixel[1]={1};
+  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
+  fits_get_img_dim(fptr,&naxis,status);
+  fits_get_img_size(fptr,1,naxes,status);
+  if((*status==0) && ((naxis!=1) || (naxes[0]!=n_el)))
+    *status=BAD_DIMEN;
+  if(*status)
+    return NULL;
+
+  int *perm=my_malloc(n_el*sizeof(int));
+  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
+  if(*status) {
+    free(perm);
+    return NULL;
+  }
+
+  gsl_permutation *p=gsl_permutation_calloc(n_el);
+  for(ii=0;ii<n_el;ii++) {
+    if((perm[ii]<0) || (perm[ii]>=n_el))
+      *status=BAD_PIX_NUM;
+    else
+      p->data[ii]=perm[ii];
+  }
+  if((*status==0) && (gsl_permutation_valid(p)!=GSL_SUCCESS))
+    *status=BAD_PIX_NUM;
+  free(perm);
+  return p;
+}
+
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
 				      nmt_workspace *w,
 				      int *status)
@@ -29,22 +74,31 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
 					int w_unbinned,
 					int *status)
 {
-  int status_pre;
   fits_movnam_hdu(fptr,IMAGE_HDU,"WSP_PRIMARY",0,status);
   fits_read_key(fptr,TINT,"LMAX",&(w->lmax),NULL,status);
   fits_read_key(fptr,TINT,"LMAX_FIELDS",&(w->lmax_fields),NULL,status);
   fits_read_key(fptr,TINT,"LMAX_MASK",&(w->lmax_mask),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
-  status_pre = *status;
+  if(*status)
+    return;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
-  if(*status) {// maybe used old format
+  if(*status==KEY_NO_EXIST) {// maybe used old format
     w->norm_type=0;
-    *status=status_pre;
+    *status=0;
+  }
+  if(*status)
+    return;
+  if((w->lmax<0) || (w->lmax_fields<w->lmax) || (w->lmax_mask<0) || (w->ncls<1)) {
+    *status=BAD_DIMEN;
+    return;
   }
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
+  check_img_size(fptr,n_el,n_el,status);
+  if(*status)
+    return;
   if(w_unbinned) {
     w->coupling_matrix_unbinned=my_malloc(n_el*sizeof(flouble *));
     for(ii=0;ii<n_el;ii++) {
@@ -98,33 +152,39 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   double *f;
   double nulval;
   int anynul;
-  long nrows;
+  long nrows=0;
   *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=lmax_expect+1) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Expected %d elements, but got %ld\n",
-		 lmax_expect+1,nrows);
-  }
+  if((*status==0) && (nrows!=lmax_expect+1))
+    *status=BAD_ROW_NUM;
+  if(*status)
+    return NULL;
   f=my_malloc(nrows*sizeof(double));
   fits_read_col(fptr,TDOUBLE,2,1,1,nrows,&nulval,f,&anynul,status);
   return f;
 }
 
 static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
+						       int lmax_expect,
 						       int *status)
 {
   nmt_binning_scheme *b;
   int *bpws,*ells;
   flouble *weights,*f_ell;
   int anynul,n_bands,ell_max;
-  long nrows;
+  long ii,nrows;
   double nulval;
   fits_movnam_hdu(fptr,BINARY_TBL,"BANDPOWERS",0,status);
+  if(*status)
+    return NULL;
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && (ell_max!=lmax_expect))
+    *status=BAD_DIMEN;
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -137,11 +197,27 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
-  b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
-  if(n_bands!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table contents %d %d\n",
-		 n_bands, b->n_bands);
+  b=NULL;
+  if(*status==0) {
+    double *norms;
+    if((n_bands<1) || (n_bands>nrows))
+      *status=BAD_DIMEN;
+    norms=my_calloc(*status ? 1 : n_bands,sizeof(double));
+    for(ii=0;(ii<nrows) && (*status==0);ii++) {
+      if(bpws[ii]<0)
+	continue;
+      if((bpws[ii]>=n_bands) || (ells[ii]<0) || (ells[ii]>ell_max))
+	*status=BAD_ROW_NUM;
+      else
+	norms[bpws[ii]]+=weights[ii];
+    }
+    for(ii=0;(*status==0) && (ii<n_bands);ii++) {
+      if(!(norms[ii]>0))
+	*status=BAD_ROW_NUM;
+    }
+    free(norms);
+    if(*status==0)
+      b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   }
   free(bpws);
   free(ells);
@@ -151,9 +227,10 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 }
 
 static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
+							   int lmax_expect,
 							   int *status)
 {
-  int ii,anynul;
+  int ii,jj,anynul;
   long nrows;
   double nulval;
   nmt_binning_scheme *b=my_malloc(sizeof(nmt_binning_scheme));
@@ -161,9 +238,11 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table size\n");
+  if((*status==0) && ((nrows!=b->n_bands) || (b->ell_max!=lmax_expect)))
+    *status=BAD_ROW_NUM;
+  if(*status) {
+    free(b);
+    return NULL;
   }
   b->nell_list=my_malloc(b->n_bands*sizeof(int));
   b->ell_list=my_malloc(b->n_bands*sizeof(int *));
@@ -177,10 +256,10 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
-    if(nrows!=b->nell_list[ii]) {
-      report_error(NMT_ERROR_INCONSISTENT,
-		   "Number of rows doesn't match number of ells\n");
-    }
+    if((*status==0) && (nrows!=b->nell_list[ii]))
+      *status=BAD_ROW_NUM;
+    if(*status)
+      return NULL;
     b->ell_list[ii]=my_malloc(b->nell_list[ii]*sizeof(int));
     b->w_list[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
     b->f_ell[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
@@ -190,6 +269,10 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
 		  b->w_list[ii],&anynul,status);
     fits_read_col(fptr,TDOUBLE,3,1,1,nrows,&nulval,
 		  b->f_ell[ii],&anynul,status);
+    for(jj=0;(*status==0) && (jj<nrows);jj++) {
+      if((b->ell_list[ii][jj]<0) || (b->ell_list[ii][jj]>b->ell_max))
+	*status=BAD_ROW_NUM;
+    }
   }
 
   return b;
@@ -304,8 +387,11 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   long fpixel[2]={1,1};
 
   //Read flattened coupling matrix
-  double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
+  check_img_size(fptr,n_el,n_el,status);
+  if(*status)
+    return;
+  double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
   fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix_binned,NULL,status);
 
   //Unflatten
@@ -319,14 +405,7 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   free(matrix_binned);
 
   //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
-
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+  w->coupling_matrix_perm=nmt_permutation_fromhdus(fptr,n_el,status);
 }
 
 static void check_fits(int status,char *fname,int is_read)
@@ -339,6 +418,16 @@ static void check_fits(int status,char *fname,int is_read)
   }
 }
 
+//Same as above for files that are already open
+static void check_fits_open(int status,char *fname,fitsfile *fptr,int is_read)
+{
+  if(status) {
+    int status_close=0;
+    fits_close_file(fptr,&status_close);
+    check_fits(status,fname,is_read);
+  }
+}
+
 void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
   fitsfile *fptr;
@@ -347,20 +436,21 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   check_fits(status,fname,0);
   // Workspace info HDU
   nmt_workspace_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // beam_prod HDU
   nmt_l_arr_tohdus(fptr,w->lmax_fields,w->beam_prod,"BEAMS",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // pcl_masks HDU
   nmt_l_arr_tohdus(fptr,w->lmax_mask,w->pcl_masks,"PCL_MASKS",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // bins HDUs
   nmt_binning_scheme_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // binned MCM HDU
   nmt_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -373,21 +463,23 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   // beam_prod HDU
   w->beam_prod=nmt_l_arr_fromhdus(fptr,w->lmax_fields,"BEAMS",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   // pcl_masks HDU
   w->pcl_masks=nmt_l_arr_fromhdus(fptr,w->lmax_mask,"PCL_MASKS",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   // bins HDUs
-  w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
-    w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
-  check_fits(status,fname,1);
+  w->bin=nmt_binning_scheme_fromhdus(fptr,w->lmax,&status);
+  if(status==BAD_HDU_NUM) { // maybe used old format
+    status=0;
+    w->bin=nmt_binning_scheme_fromhdus_old(fptr,w->lmax,&status);
+  }
+  check_fits_open(status,fname,fptr,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   fits_close_file(fptr,&status);
 
   return w;
@@ -437,14 +529,21 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"PURE_B2",&(w->pb2),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
-  long ii;
-  long naxes[2],fpixel[2]={1,1};
-  fits_get_img_size(fptr,2,naxes,status);
-  w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
-  for(ii=0;ii<naxes[1];ii++) {
+  if((*status==0) && (w->ncls<1))
+    *status=BAD_DIMEN;
+  if(*status)
+    return;
+  long ii,fpixel[2]={1,1};
+  long n_el1=w->ncls*w->bin->n_bands;
+  long n_el2=w->ncls*w->fs->n_ell;
+  check_img_size(fptr,n_el2,n_el1,status);
+  if(*status)
+    return;
+  w->coupling_matrix_unbinned=my_malloc(n_el1*sizeof(flouble *));
+  for(ii=0;ii<n_el1;ii++) {
     fpixel[1]=ii+1;
-    w->coupling_matrix_unbinned[ii]=my_malloc(naxes[0]*sizeof(flouble));
-    fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0],NULL,
+    w->coupling_matrix_unbinned[ii]=my_malloc(n_el2*sizeof(flouble));
+    fits_read_pix(fptr,TDOUBLE,fpixel,n_el2,NULL,
 		  w->coupling_matrix_unbinned[ii],NULL,status);
   }
   if(*status == 412)
@@ -498,6 +597,12 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && (nrows<1))
+    *status=BAD_ROW_NUM;
+  if(*status) {
+    free(fs);
+    return NULL;
+  }
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -529,6 +634,7 @@ static void nmt_n_cells_tohdus(fitsfile *fptr,
 }
 
 static int *nmt_n_cells_fromhdus(fitsfile *fptr,
+				 int n_bands,
 				 int *status)
 {
   int *n_cells;
@@ -536,6 +642,10 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && (nrows!=n_bands))
+    *status=BAD_ROW_NUM;
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -590,15 +700,16 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
 					      int *status)
 {
   flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
+  long ii,n_el=w->ncls*w->bin->n_bands;
+  long fpixel[2]={1,1};
 
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
+  check_img_size(fptr,n_el,n_el,status);
+  if(*status)
+    return;
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
+  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix,NULL,status);
   w->coupling_matrix_binned=my_malloc(n_el*sizeof(flouble *));
   for(ii=0;ii<n_el;ii++) {
     w->coupling_matrix_binned[ii]=my_malloc(n_el*sizeof(flouble));
@@ -608,12 +719,12 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
 
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Inconsistent size for GSL binned MCM\n");
+  check_img_size(fptr,n_el,n_el,status);
+  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix,NULL,status);
+  if(*status) {
+    free(matrix);
+    return;
   }
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
   w->coupling_matrix_binned_gsl=gsl_matrix_alloc(n_el,n_el);
   for(ii=0;ii<n_el;ii++) {
     long jj,i0=ii*n_el;
@@ -623,14 +734,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   free(matrix);
 
   //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
-
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+  w->coupling_matrix_perm=nmt_permutation_fromhdus(fptr,n_el,status);
 }
 
 static void nmt_binning_scheme_flat_tohdus(fitsfile *fptr,
@@ -676,6 +780,12 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if((*status==0) && (nrows<1))
+    *status=BAD_ROW_NUM;
+  if(*status) {
+    free(b);
+    return NULL;
+  }
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -695,20 +805,21 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   check_fits(status,fname,0);
   // Workspace info HDU
   nmt_workspace_flat_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // FS info HDU
   nmt_flatsky_info_tohdus(fptr,w->fs,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // n_cells HDU
   nmt_n_cells_tohdus(fptr,w->bin->n_bands,w->n_cells,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // binned MCM HDUs
   nmt_flat_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   // bins HDU
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -719,21 +830,21 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
-  // Workspace info HDU
-  nmt_workspace_flat_info_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  // bins HDU
+  w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
+  check_fits_open(status,fname,fptr,1);
   // FS info HDU
   w->fs=nmt_flatsky_info_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
+  // Workspace info HDU
+  nmt_workspace_flat_info_fromhdus(fptr,w,&status);
+  check_fits_open(status,fname,fptr,1);
   // n_cells HDU
-  w->n_cells=nmt_n_cells_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  w->n_cells=nmt_n_cells_fromhdus(fptr,w->bin->n_bands,&status);
+  check_fits_open(status,fname,fptr,1);
   // binned MCM HDUs
   nmt_flat_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
-  // bins HDU
-  w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   fits_close_file(fptr,&status);
 
   return w;
@@ -760,16 +871,15 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 					  int *status)
 {
   flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
+  long ii,n_el=n_expected;
+  long fpixel[2]={1,1};
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
-  if(n_el!=n_expected)
-    report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
+  check_img_size(fptr,n_el,n_el,status);
+  if(*status)
+    return NULL;
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
+  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix,NULL,status);
 
   double **coeff=my_malloc(n_el*sizeof(flouble *));
   for(ii=0;ii<n_el;ii++) {
@@ -793,27 +903,28 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   fits_write_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   cw->lmax_mask=cw->lmax;
   fits_write_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
 
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   if(cw->spin0_only == 0) {
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1122,"XI02_1122",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1221,"XI02_1221",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1122,"XI22P_1122",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1221,"XI22P_1221",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1122,"XI22M_1122",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1221,"XI22M_1221",&status);
-    check_fits(status,fname,0);
+    check_fits_open(status,fname,fptr,0);
   }
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -826,12 +937,14 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   check_fits(status,fname,1);
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  check_fits(status,fname,1);
+  if((status==0) && (cw->lmax<0))
+    status=BAD_DIMEN;
+  check_fits_open(status,fname,fptr,1);
   if(force_spin0)
     cw->spin0_only=1;
   else {
     fits_read_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
-    if(status) {//Old format, always includes all spins
+    if(status==KEY_NO_EXIST) {//Old format, always includes all spins
       cw->spin0_only=0;
       status=0;
     }
@@ -839,9 +952,9 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   //Empty primary
 
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1122",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1221",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   if(cw->spin0_only) {
     cw->xi02_1122=cw->xi00_1122;
     cw->xi02_1221=cw->xi00_1221;
@@ -852,17 +965,17 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   }
   else {
     cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1122",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
     cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1221",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
     cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1122",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
     cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1221",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
     cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1122",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
     cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1221",&status);
-    check_fits(status,fname,1);
+    check_fits_open(status,fname,fptr,1);
   }
   fits_close_file(fptr,&status);
 
@@ -879,30 +992,31 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
   fits_write_key(fptr,TSTRING,"EXTNAME","CWSP_PRIMARY",NULL,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
 
   //Bins
   nmt_binning_scheme_flat_tohdus(fptr,cw->bin,&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
 
   //Coeffs
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1122,"XI02_1122",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1221,"XI02_1221",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1122,"XI22P_1122",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1221,"XI22P_1221",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1122,"XI22M_1122",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
-  check_fits(status,fname,0);
+  check_fits_open(status,fname,fptr,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
@@ -917,25 +1031,25 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 
   //Bins
   cw->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
 
   //Coeffs
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1122",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1221",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1122",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1221",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1122",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1221",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1122",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1221",&status);
-  check_fits(status,fname,1);
+  check_fits_open(status,fname,fptr,1);
   fits_close_file(fptr,&status);
 
   return cw;
-- 
2.43.0


From a72019dd51514c1c9f4c75bd0d2889e13617a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 09/62] fix: recover the FKP normalisation of workspaces read
 from file

---
 src/nmt_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 0dee31f..fd503bc 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -480,6 +480,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
   check_fits_open(status,fname,fptr,1);
+  // With FKP normalisation, the binned MCM is w2 times the identity
+  w->w2=0;
+  if(w->norm_type!=0)
+    w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
   fits_close_file(fptr,&status);
 
   return w;
-- 
2.43.0


From e5d78d9b9aee4ec983dcb81dc2d0ea8e84a09c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 10/62] fix: keep all bands of multipoles shared between
 bandpowers when writing workspaces

---
 src/nmt_io.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index fd503bc..62aa386 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -282,25 +282,22 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      nmt_binning_scheme *b,
 				      int *status)
 {
-  int ii;
-  int nrows=b->ell_max+1;
+  int ii,irow=0,nrows=0;
+  //A given multipole may belong to more than one band
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
   flouble *weights=my_calloc(nrows,sizeof(flouble));
   flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
-
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      ells[irow]=b->ell_list[ii][jj];
+      bpws[irow]=ii;
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From 9f27a82d75dc86886aca279e1a4f1ef95293c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 11/62] fix: bound the length of native error messages

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From 562a7e76f2d3e090ea726076577f01f83be05814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 12/62] fix: report singular coupling matrices and invalid
 interpolation nodes as errors instead of aborting

---
 src/nmt_covar.c       |  2 ++
 src/nmt_covar_flat.c  |  2 ++
 src/nmt_field_flat.c  | 10 ++++++++++
 src/nmt_master.c      |  3 +++
 src/nmt_master_flat.c |  1 +
 src/utils.c           | 10 ++++++++++
 src/utils.h           |  8 ++++++++
 7 files changed, 36 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 9740ae1..adb1915 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -205,6 +205,8 @@ void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,
   int nmaps_d=spin_d ? 2 : 1;
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
+  check_lu_singular(wa->coupling_matrix_binned);
+  check_lu_singular(wb->coupling_matrix_binned);
 
   gsl_matrix *covar_binned=gsl_matrix_alloc(wa->ncls*wa->bin->n_bands,wb->ncls*wb->bin->n_bands);
 
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..d36db12 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -328,6 +328,8 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   int nmaps_d=spin_d ? 2 : 1;
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
+  check_lu_singular(wa->coupling_matrix_binned_gsl);
+  check_lu_singular(wb->coupling_matrix_binned_gsl);
 
   //Compute binned spectra
   int i_cl;
diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..29afc28 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -3,6 +3,16 @@
 
 nmt_k_function *nmt_k_function_alloc(int nk,flouble *karr,flouble *farr,flouble y0,flouble yf,int is_const)
 {
+  if(!is_const) {
+    int ii;
+    if(nk<2)
+      report_error(NMT_ERROR_VALUE,"At least two samples are needed to interpolate\n");
+    for(ii=1;ii<nk;ii++) {
+      if(!(karr[ii]>karr[ii-1]))
+	report_error(NMT_ERROR_VALUE,"Interpolation nodes must be strictly increasing\n");
+    }
+  }
+
   nmt_k_function *f=my_malloc(sizeof(nmt_k_function));
   f->is_const=is_const;
   f->y0=y0;
diff --git a/src/nmt_master.c b/src/nmt_master.c
index 7f80d24..65cc6b0 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1170,6 +1170,8 @@ void nmt_couple_cl_l(nmt_workspace *w,flouble **cl_in,flouble **cl_out)
 
 void nmt_compute_bandpower_windows(nmt_workspace *w,double *bpw_win_out)
 {
+  check_lu_singular(w->coupling_matrix_binned);
+
   // Bin mode-coupling matrix
   gsl_matrix *mat_coupled_bin=gsl_matrix_calloc(w->ncls*w->bin->n_bands,
 						w->ncls*(w->lmax+1));
@@ -1237,6 +1239,7 @@ void nmt_decouple_cl_l(nmt_workspace *w,flouble **cl_in,flouble **cl_noise_in,
 		       flouble **cl_bias,flouble **cl_out)
 {
   int icl,ib2,l2;
+  check_lu_singular(w->coupling_matrix_binned);
   gsl_vector *dl_map_bad_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
   gsl_vector *dl_map_good_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
 
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..4e202cc 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -874,6 +874,7 @@ void nmt_decouple_cl_l_flat(nmt_workspace_flat *w,flouble **cl_in,flouble **cl_n
 			    flouble **cl_bias,flouble **cl_out)
 {
   int icl,ib2;
+  check_lu_singular(w->coupling_matrix_binned_gsl);
   gsl_vector *dl_map_bad_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
   gsl_vector *dl_map_good_b=gsl_vector_alloc(w->ncls*w->bin->n_bands);
 
diff --git a/src/utils.c b/src/utils.c
index 5971ad5..c14c084 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -342,6 +342,16 @@ int drc3jj(int il2,int il3,int im2, int im3,int *l1min_out,
   return 2;
 }
 
+void check_lu_singular(gsl_matrix *lu)
+{
+  size_t ii;
+
+  for(ii=0;ii<lu->size1;ii++) {
+    if(gsl_matrix_get(lu,ii,ii)==0)
+      report_error(NMT_ERROR_VALUE,"The binned mode-coupling matrix is singular\n");
+  }
+}
+
 void moore_penrose_pinv(gsl_matrix *M,double threshold)
 {
   if(M->size1!=M->size2)
diff --git a/src/utils.h b/src/utils.h
index b324ac6..6bbb048 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -126,6 +126,14 @@ int drc3jj(int il2,int il3,int im2, int im3,int *l1min_out,
 int drc3jj_000(int il2,int il3,int *l1min_out,int *l1max_out,
 	       double *lfac,double *thrcof,int size);
 
+/**
+ * @brief Check whether a matrix is singular
+ *
+ * Reports an error if the matrix can't be inverted.
+ * @param lu LU decomposition of the matrix.
+ */
+void check_lu_singular(gsl_matrix *lu);
+
 /**
  * @brief Moore-Penrose pseudo-inverse.
  *
-- 
2.43.0


From 9d748b0cbeab83443e1d3cfa7ac558784ae576cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 13/62] fix: flat-sky simulations reproducible for any number
 and scheduling of threads

---
 src/flatsky_utils.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..2897b85 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -481,19 +481,17 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //One seed per row, so the result doesn't depend on how rows are distributed among threads
+  int iy_seed;
+  unsigned long *seeds=my_malloc(ny*sizeof(unsigned long));
+  gsl_rng *rng_seeds=init_rng((unsigned int)seed);
+  for(iy_seed=0;iy_seed<ny;iy_seed++)
+    seeds[iy_seed]=gsl_rng_get(rng_seeds);
+  end_rng(rng_seeds);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,seeds,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -505,8 +503,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
+    gsl_rng *rng=init_rng(0);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -514,6 +511,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     for(iy=0;iy<ny;iy++) {
       int ix;
       flouble ky;
+      gsl_rng_set(rng,seeds[iy]);
       if(2*iy<=ny)
 	ky=iy*dky;
       else
@@ -595,6 +593,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
 
+  free(seeds);
+
   //Restore error handler
   gsl_set_error_handler(geh);
 
-- 
2.43.0


From 652b8b52318565741ceae2ced0a8c62ad0400af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 14/62] fix: honour the seed in synfast_spherical

---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..8a5a679 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -650,7 +650,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # Note also that healpy uses numpy's global random number generator.
+    rng_state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(rng_state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From 25d67f667288c9c38b4ae647b19e26442465fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/62] fix: variance of Nyquist modes in flat-sky simulations

---
 src/flatsky_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 2897b85..2ba667c 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -561,14 +561,14 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble bm=nmt_k_function_eval(beam[imp1],kmod,intacc_beam);
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
-	    if(ix==0) {
-	      if(iy>ny/2)
+	    if((ix==0) || (2*ix==nx)) { //The conjugate mode is in the same column
+	      int iyy=(ny-iy)%ny;
+	      if(iy>iyy)
 		continue;
 	      else {
-		if(iy==0)
+		if(iy==iyy) //This mode is real
 		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 		else {
-		  int iyy=ny-iy;
 		  alms[imp1][index]=(fcomplex)(a_re+I*a_im);
 		  alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
 		}
-- 
2.43.0


From 681e86aee2cceae459d449e335a6a96c8c7686d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 16/62] fix: reject inconsistent permutations and map
 geometries in workspace files without aborting

---
 src/nmt_io.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 62aa386..b97fea9 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -35,14 +35,16 @@ static gsl_permutation *nmt_permutation_fromhdus(fitsfile *fptr,long n_el,int *s
   }
 
   gsl_permutation *p=gsl_permutation_calloc(n_el);
+  int *found=my_calloc(n_el,sizeof(int));
   for(ii=0;ii<n_el;ii++) {
-    if((perm[ii]<0) || (perm[ii]>=n_el))
+    if((perm[ii]<0) || (perm[ii]>=n_el) || found[perm[ii]])
       *status=BAD_PIX_NUM;
-    else
+    else {
+      found[perm[ii]]=1;
       p->data[ii]=perm[ii];
+    }
   }
-  if((*status==0) && (gsl_permutation_valid(p)!=GSL_SUCCESS))
-    *status=BAD_PIX_NUM;
+  free(found);
   free(perm);
   return p;
 }
@@ -600,6 +602,11 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   fits_get_num_rows(fptr,&nrows,status);
   if((*status==0) && (nrows<1))
     *status=BAD_ROW_NUM;
+  if((*status==0) && ((fs->nx<1) || (fs->ny<1) || (fs->npix!=fs->nx*((long)(fs->ny)))))
+    *status=BAD_DIMEN;
+  if((*status==0) && !((fs->lx>0) && (fs->ly>0) && (fs->pixsize>0) &&
+		       (fabs(fs->dell*fs->i_dell-1)<1E-6)))
+    *status=BAD_DIMEN;
   if(*status) {
     free(fs);
     return NULL;
-- 
2.43.0


From f25780314223991556ef16bcf9bfd55a6d0f4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 17/62] fix: log-factorial table too short for the largest
 Wigner 3j symbols

---
 src/nmt_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 65cc6b0..6edcea6 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -745,11 +745,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  c->lfac = my_malloc(4*(lmax_max+1)*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<4*(lmax_max+1);ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From 376a9ff06ce0f83b253ed0e231f63d571b6a1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 18/62] fix: multipoles in gaps between flat-sky bandpowers

---
 src/nmt_bins_flat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..e36bf31 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -11,8 +11,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback>=0) {
       if(l<bin->ell_0_list[ilback])
 	ilback--;
-      else
+      else if(l<bin->ell_f_list[ilback])
 	return ilback;
+      else //l lies in a gap between bands
+	return -1;
     }
     return -1;
   }
@@ -21,8 +23,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback<bin->n_bands) {
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
-      else
+      else if(l>=bin->ell_0_list[ilback])
 	return ilback;
+      else //l lies in a gap between bands
+	return -1;
     }
     return -1;
   }
-- 
2.43.0


From 09afa1878f2a68bc91af8e025d6c6c1cf423b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 19/62] fix: minimum and maximum multipole of bandpowers with
 unsorted multipoles

---
 pymaster/bins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..8dbaa4e 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -206,7 +206,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Minimum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[0]
+        return np.amin(self.get_ell_list(b))
 
     def get_ell_max(self, b):
         """ Returns the maximum ell value used by bandpower with
@@ -218,7 +218,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Maximum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[-1]
+        return np.amax(self.get_ell_list(b))
 
     def get_ell_list(self, b):
         """ Returns an array with the multipoles in the
-- 
2.43.0


From c125691ba568079f77425b189b93421a4810c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 20/62] fix: refuse negative multipoles and out-of-range
 bandpower indices

---
 pymaster/bins.py | 6 ++++++
 src/nmt_bins.c   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 8dbaa4e..53e1c0c 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -196,6 +196,10 @@ class NmtBin(object):
         """
         return lib.get_nell_list(self.bin, self.bin.n_bands)
 
+    def _check_band(self, b):
+        if not 0 <= int(b) < self.bin.n_bands:
+            raise ValueError(f"Bandpower index {b} is out of range")
+
     def get_ell_min(self, b):
         """ Returns the minimum ell value used by bandpower with
         index ``b``.
@@ -231,6 +235,7 @@ class NmtBin(object):
             (`array`): Array of multipoles associated with bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_ell_list(self.bin, int(b),
                                 lib.get_nell(self.bin, int(b)))
 
@@ -246,6 +251,7 @@ class NmtBin(object):
             (`array`): Weights associated to multipoles in bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_weight_list(self.bin, int(b),
                                    lib.get_nell(self.bin, int(b)))
 
diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index ea24dcd..6ceb476 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -59,6 +59,8 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
   int ii,nband_max=0;
 
   for(ii=0;ii<nell;ii++) {
+    if((ells[ii]<0) && (bpws[ii]>=0))
+      report_error(NMT_ERROR_VALUE,"Multipoles must be non-negative\n");
     if(ells[ii]<=lmax) {
       if(bpws[ii]>nband_max)
 	nband_max=bpws[ii];
-- 
2.43.0


From 07270e5f42d226c2d614a236060ae85f0ddaed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 21/62] fix: conjugate Fourier modes in flat-sky spectra and
 coupling matrices

---
 src/flatsky_utils.c   | 8 +++++---
 src/nmt_master_flat.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 2ba667c..cf83035 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Conjugate of the mode with opposite kx and ky
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 4e202cc..afcfeba 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -180,17 +180,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Conjugate of the mode with opposite kx and ky
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From 842387a0300fb5e5828f5244572511e2af7d3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 22/62] fix: flat-sky purification with non-square pixels

---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index 29afc28..3499425 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -126,8 +126,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -200,8 +200,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -238,8 +238,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From ca0b8c00d6c87927f3035a08a9b73fc9c771fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 23/62] fix: flat-sky mask apodization with non-square pixels

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From 4b5905b9b91b4d74452b0b0ec8413c06f0b3788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 24/62] fix: templates that vanish inside the mask

---
 pymaster/utils.py | 2 +-
 src/utils.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 8a5a679..23417ab 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -799,7 +799,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    goodw = (w >= tol_pinv*np.max(w)) & (w != 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
diff --git a/src/utils.c b/src/utils.c
index c14c084..387f908 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -372,7 +372,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v<threshold*eval_max) || (v==0))
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From 15aace12f78574198e93acac0e427407872db655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 25/62] fix: refuse flat-sky covariances and estimators with
 different bandpowers or patches

---
 src/namaster.h        |  9 +++++++++
 src/nmt_bins_flat.c   | 12 ++++++++++++
 src/nmt_covar_flat.c  |  9 ++++++---
 src/nmt_master_flat.c |  2 +-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..70dcb90 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -100,6 +100,15 @@ nmt_binning_scheme_flat *nmt_bins_flat_create(int nell,flouble *l0,flouble *lf);
  */
 void nmt_bins_flat_free(nmt_binning_scheme_flat *bin);
 
+/**
+ * @brief Checks whether two flat-sky binning schemes have different bandpowers.
+ *
+ * @param b1 first binning scheme
+ * @param b2 second binning scheme
+ * @return 1 if the bandpowers are different, 0 otherwise
+ */
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2);
+
 /**
  * @brief Returns average of input power spectrum into bandpowers.
  *
diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index e36bf31..eee8142 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -42,6 +42,18 @@ void nmt_bins_flat_free(nmt_binning_scheme_flat *bin)
   free(bin);
 }
 
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2)
+{
+  int ii;
+
+  if(b1->n_bands!=b2->n_bands) return 1;
+  for(ii=0;ii<b1->n_bands;ii++) {
+    if((b1->ell_0_list[ii]!=b2->ell_0_list[ii]) || (b1->ell_f_list[ii]!=b2->ell_f_list[ii]))
+      return 1;
+  }
+  return 0;
+}
+
 nmt_binning_scheme_flat *nmt_bins_flat_constant(int nlb,flouble lmax)
 {
   int ii;
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index d36db12..95dd930 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -33,10 +33,13 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   
   if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny) ||
+     (fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
-  if(ba->n_bands!=bb->n_bands)
+  if(nmt_bins_flat_differ(ba,bb))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
@@ -319,7 +322,7 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 					  flouble **clac,flouble **clad,
 					  flouble **clbc,flouble **clbd,flouble *covar_out)
 {
-  if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
+  if(nmt_bins_flat_differ(wa->bin,cw->bin) || nmt_bins_flat_differ(wb->bin,cw->bin))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
 
   int nmaps_a=spin_a ? 2 : 1;
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index afcfeba..5b1ff1e 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -928,7 +928,7 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     w=w0;
     if((check_flatsky_infos(fl1->fs,w->fs)) || (check_flatsky_infos(fl2->fs,w->fs)))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
-    if(bin->n_bands!=w->bin->n_bands)
+    if(nmt_bins_flat_differ(bin,w->bin))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
   }
 
-- 
2.43.0


From 031bc90515fa4b949d5428fa0462cc2638ccce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 26/62] fix: full flat-sky estimator with a single bandpower

---
 pymaster/workspaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 5c1b0c0..8d95789 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1140,8 +1140,8 @@ def compute_full_master_flat(f1, f2, b, cl_noise=None, cl_guess=None,
         lf = ells_guess.copy()
         clg = cl_guess.copy()
     else:
-        lf = b.get_effective_ells()
-        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, b.bin.n_bands])
+        lf = np.array([0., 1.])
+        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, len(lf)])
 
     if workspace is None:
         cl1d = lib.comp_pspec_flat(
-- 
2.43.0


From c5de44b45bcf58277f842afabbbfb4405ef6eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 27/62] fix: keep full precision of the patch geometry in
 flat-sky workspace files

---
 src/nmt_io.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index b97fea9..c82c723 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -499,11 +499,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  fits_write_key_dbl(fptr,"LMAX",w->lmax,-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_I",w->ellcut_x[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_F",w->ellcut_x[1],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_I",w->ellcut_y[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_F",w->ellcut_y[1],-17,NULL,status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -570,11 +570,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  fits_write_key_dbl(fptr,"LX",fs->lx,-17,NULL,status);
+  fits_write_key_dbl(fptr,"LY",fs->ly,-17,NULL,status);
+  fits_write_key_dbl(fptr,"PIXSIZE",fs->pixsize,-17,NULL,status);
+  fits_write_key_dbl(fptr,"DELL",fs->dell,-17,NULL,status);
+  fits_write_key_dbl(fptr,"I_DELL",fs->i_dell,-17,NULL,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From 15e1a89b7cebf397aeeb2fa3bbcdf3ceb4f2102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 28/62] fix: separate interpolation accelerators for the two
 beams of flat-sky coupling matrices

---
 src/nmt_master_flat.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 5b1ff1e..3710a54 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -168,7 +168,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
     flouble dky=2*M_PI/fs->ly;
     int iy1,ix1;
     int *n_cells_thr=my_calloc(w->bin->n_bands,sizeof(int));
-    gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam1=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam2=gsl_interp_accel_alloc();
 
 #pragma omp for
     for(iy1=0;iy1<fs->ny;iy1++) {
@@ -198,8 +199,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
 
 	kmod=sqrt(kx*kx+ky*ky);
-	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam);
-	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam);	
+	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam1);
+	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam2);	
 	kmodarr[index]=kmod;
 	beamprod[index]=beam1*beam2;
 	ik=nmt_bins_flat_search_fast(w->bin,kmod,ik);
@@ -267,7 +268,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	w->n_cells[iy1]+=n_cells_thr[iy1];
     } //end omp critical
     free(n_cells_thr);
-    gsl_interp_accel_free(intacc_beam);
+    gsl_interp_accel_free(intacc_beam1);
+    gsl_interp_accel_free(intacc_beam2);
   } //end omp parallel
   free(x_out_range);
   free(y_out_range);
-- 
2.43.0


From d702f8ef8ea1399a289210b4bbc6aa9e6f7d53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 29/62] fix: accept beams sampled beyond the maximum multipole

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 8d95789..7fa0a4b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -315,6 +315,10 @@ class NmtWorkspace(object):
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
+        # Beams may be sampled beyond the maximum multipole
+        beam1 = fl1.beam[:fl1.ainfo.lmax+1]
+        beam2 = fl2.beam[:fl1.ainfo.lmax+1]
+
         if anisotropic_mask_any:
             self.wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
@@ -322,7 +326,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             self.wsp = lib.comp_coupling_matrix(
@@ -331,7 +335,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         self.has_unbinned = True
 
-- 
2.43.0


From 98cd3270ca20f83c6cec14b3fc6f80d8774fe3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 30/62] fix: overflow of the number of mode pairs in flat-sky
 covariances

---
 src/nmt_covar_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 95dd930..c77d5ab 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -262,8 +262,8 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
       int ib2;
       for(ib2=0;ib2<cw->bin->n_bands;ib2++) {
 	flouble norm;
-	if(n_cells[ib1]*n_cells[ib2]>0)
-	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);
+	if((n_cells[ib1]>0) && (n_cells[ib2]>0))
+	  norm=fac_norm/((flouble)(n_cells[ib1])*n_cells[ib2]);
 	else
 	  norm=0;
 	cw->xi00_1122[ib1][ib2]*=norm;
-- 
2.43.0


From e80e00cd9821c1401433321196399b7a054b758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 31/62] fix: HEALPix disc queries that nearly enclose a ring

---
 src/healpix_extra.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..f796575 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -338,8 +338,12 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
 
   shift=0.5*kshift;
   if(conservative) {
-    ip_low=nint_he(nr*phi_low/(2*M_PI)-shift);
-    ip_hi=nint_he(nr*phi_hi/(2*M_PI)-shift);
+    ip_low=nint_he(nr*(phi0-dphi)/(2*M_PI)-shift);
+    ip_hi=nint_he(nr*(phi0+dphi)/(2*M_PI)-shift);
+    if(ip_hi-ip_low+1>=nr) { //The interval covers the whole ring
+      ip_low=0;
+      ip_hi=nr-1;
+    }
     ip_low=modu_he(ip_low,nr);
     ip_hi=modu_he(ip_hi,nr);
   }
-- 
2.43.0


From d6d1c85b2a8f3666005844c3f1dfbee4897ffda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 32/62] fix: list sizes and radii of HEALPix mask apodization

---
 src/healpix_extra.c |  2 ++
 src/nmt_mask.c      | 32 ++++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index f796575..9cb7113 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -421,6 +421,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI)
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..df0a49e 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -1,12 +1,27 @@
 #include "config.h"
 #include "utils.h"
 
+//Size of the list needed by he_query_disc (inclusive), which uses
+//the first half for the result and the second half as scratch.
+static int disc_list_size(long nside,double radius)
+{
+  long npix=he_nside2npix(nside);
+  double size=sqrt(4*M_PI/npix);
+  double radius_eff=fmin(radius+4*size,M_PI);
+  double n=npix*(1-cos(radius_eff))+16;
+  return 2*(int)(fmin(n,npix));
+}
+
 static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
   long npix=he_nside2npix(nside);
   double aporad=aposize*M_PI/180;
   double x2_thr=1-cos(aporad);
   double inv_x2_thr=1./x2_thr;
+  double radius=fmin(1.2*aporad,M_PI);
+  if(4*npix*(1-cos(radius)) < 2)
+    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  int lenlist0=disc_list_size(nside,radius);
   flouble *vec=my_malloc(3*npix*sizeof(flouble));
   flouble *cthv=my_malloc(npix*sizeof(flouble));
   flouble *phiv=my_malloc(npix*sizeof(flouble));
@@ -37,13 +52,9 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
     } //end omp for
   }//end omp parallel
 
-  int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
-  if(lenlist0 < 2)
-    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
-  
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
-  shared(nside,cthv,phiv,aporad,apotyp,lenlist0)
+  shared(nside,cthv,phiv,radius,apotyp,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -55,7 +66,7 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
 	int lenlist_half=lenlist0/2;
 	flouble *v0=vec+3*ip;
 	flouble x2dist=1000;
-	he_query_disc(nside,cthv[ip],phiv[ip],1.2*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv[ip],phiv[ip],radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 	  if(mask_in[ip2]<=0) {
@@ -93,12 +104,13 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   double aporad=aposize*M_PI/180;
   memcpy(mask_out,mask_in,npix*sizeof(flouble));
 
-  int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
-  if(lenlist0 < 2)
+  double radius=fmin(2.5*aporad,M_PI);
+  if(4*npix*(1-cos(radius)) < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  int lenlist0=disc_list_size(nside,radius);
 
 #pragma omp parallel default(none)                      \
-  shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
+  shared(npix,mask_in,mask_out,nside,radius,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -114,7 +126,7 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
 	phiv=atan2(v[1],v[0]);
 	if(phiv<0)
 	  phiv+=2*M_PI;
-	he_query_disc(nside,cthv,phiv,2.5*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv,phiv,radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 #pragma omp atomic
-- 
2.43.0


From 082a66b34ff818e85f92ab7c42a940a903c18fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 33/62] fix: conjugate Fourier modes in flat-sky covariances

---
 src/nmt_covar_flat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index c77d5ab..2902916 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -101,17 +101,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Conjugate of the mode with opposite kx and ky
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
-- 
2.43.0


From 835ff5ca2c4db3fbb22cd6cb2b2d36770497b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 34/62] fix: noise deprojection bias of purified fields

---
 pymaster/workspaces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 7fa0a4b..67fd6f5 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -841,8 +841,14 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
         # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(),
+                                fj*(f1.mask*sig2)[None, :],
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
-- 
2.43.0


From 2d7b07c013af2bb054f39c3e9fdc9be4be3fadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 35/62] fix: deprojection bias of fields correlated with
 anisotropically weighted ones

---
 pymaster/workspaces.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 67fd6f5..e5f9cce 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -703,6 +703,12 @@ def deprojection_bias(f1, f2, cl_guess, n_iter=None):
             return fld._purify(fld.mask, amask, mp,
                                n_iter=n_iter, return_maps=False,
                                task=[fld.pure_e, fld.pure_b])
+        elif fld.anisotropic_mask:
+            mask_p, mask_x = fld.mask_a
+            return ut.map2alm(mp*fld.mask[None, :] +
+                              np.array([mp[0]*mask_p + mp[1]*mask_x,
+                                        mp[0]*mask_x - mp[1]*mask_p]),
+                              fld.spin, fld.minfo, fld.ainfo, n_iter=n_iter)
         else:
             return ut.map2alm(mp*fld.mask[None, :], fld.spin,
                               fld.minfo, fld.ainfo, n_iter=n_iter)
-- 
2.43.0


From 50176bc636d3ca3d8b97b25b47a7252af8253dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 36/62] fix: pixel ordering of rectangular variance maps in the
 noise deprojection bias

---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index e5f9cce..35a2db2 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -832,6 +832,8 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     sig2 = map_var.flatten()
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
+    if not f1.minfo.is_healpix:  # Same pixel ordering as the field's maps
+        sig2 = f1.minfo.reform_map(sig2.reshape([f1.minfo.ny, f1.minfo.nx]))
 
     pcl_shape = (f1.nmaps * f1.nmaps, f1.ainfo.lmax+1)
 
-- 
2.43.0


From 6d852c29c2e4bce2d8ec07bf9e2f6bc6e287fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 37/62] fix: compare rectangular map geometries up to rounding
 errors

---
 pymaster/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 23417ab..80b8e8a 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -378,12 +378,19 @@ class NmtMapInfo(object):
         # If CAR
         if other.is_healpix:
             return False
-        for att in ['npix', 'nx', 'ny', 'theta_min',
-                    'theta_max', 'phi0', 'd_theta', 'd_phi']:
+        for att in ['npix', 'nx', 'ny']:
             a_this = getattr(self, att, None)
             a_other = getattr(other, att, None)
             if a_this != a_other:
                 return False
+        # Angles are equal up to rounding errors, and azimuths up to
+        # a full turn.
+        for att in ['theta_min', 'theta_max', 'phi0', 'd_theta', 'd_phi']:
+            diff = np.fabs(getattr(self, att) - getattr(other, att))
+            if att == 'phi0':
+                diff = min(diff, np.fabs(2*np.pi-diff))
+            if diff > 1E-10:
+                return False
         return True
 
     def reform_map(self, maps):
-- 
2.43.0


From a5f13d65a46bb1cc8aef97aa2dcb000cf5b7d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 38/62] fix: rounding of the default maximum multipole of
 rectangular maps

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 80b8e8a..105514c 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -440,7 +440,8 @@ class NmtMapInfo(object):
             return 3*self.nside-1
         else:
             dxmin = min(self.d_theta, self.d_phi)
-            return int(np.pi/dxmin)
+            # Protect against rounding errors when truncating
+            return int(np.pi/dxmin + 1E-4)
 
 
 class NmtAlmInfo(object):
-- 
2.43.0


From c7a935fc3d57ad829b07b1d5ab55686aac96ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 39/62] fix: rectangular map geometries whose azimuths differ
 by several turns are equal

---
 pymaster/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 105514c..c82f7e6 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -384,11 +384,11 @@ class NmtMapInfo(object):
             if a_this != a_other:
                 return False
         # Angles are equal up to rounding errors, and azimuths up to
-        # a full turn.
+        # full turns.
         for att in ['theta_min', 'theta_max', 'phi0', 'd_theta', 'd_phi']:
             diff = np.fabs(getattr(self, att) - getattr(other, att))
             if att == 'phi0':
-                diff = min(diff, np.fabs(2*np.pi-diff))
+                diff = np.fabs((diff+np.pi) % (2*np.pi)-np.pi)
             if diff > 1E-10:
                 return False
         return True
-- 
2.43.0


From 320aa3ca3a0f923bae614736eef70c2e35bc1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 40/62] fix: order of the anisotropic mask spectra in the
 coupling matrix

---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index 70dcb90..1ae7d3c 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -754,8 +754,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index 6edcea6..54ae397 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -423,8 +423,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From 8966d6b4dedfc57120d8bb97b38feb9af0e309fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 41/62] fix: sign of the coupling matrix of anisotropic masks
 for odd total spin

---
 src/nmt_master.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 54ae397..9083a7c 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -478,10 +478,11 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  //(-1)^spin for each field coupled through the isotropic part of its mask
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 26ddee04c16f88307ae5b9361ba33152e1ad6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 42/62] fix: refuse joint T-E-B coupling matrices of
 anisotropic masks

---
 pymaster/workspaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 35a2db2..2e1111b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -256,6 +256,10 @@ class NmtWorkspace(object):
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
                                       "implemented for anisotropic masks.")
+        if anisotropic_mask_any and is_teb:
+            raise NotImplementedError("Joint T-E-B mode-coupling matrices "
+                                      "not implemented for anisotropic "
+                                      "masks.")
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             bins.bin.ell_max, fl1, fl2)
 
-- 
2.43.0


From 64fe6fa5997f2b3b03070adda8d7bfa61b3854e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 43/62] fix: zero l_toeplitz does not request the Toeplitz
 approximation

---
 pymaster/workspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 2e1111b..769487b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -253,7 +253,7 @@ class NmtWorkspace(object):
             self.wsp = None
 
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
-        if anisotropic_mask_any and (l_toeplitz >= 0):
+        if anisotropic_mask_any and (l_toeplitz > 0):
             raise NotImplementedError("Toeplitz approximation not "
                                       "implemented for anisotropic masks.")
         if anisotropic_mask_any and is_teb:
-- 
2.43.0


From 050710a6dde9e980c1ce746c3a38f09918405866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 44/62] fix: refuse Toeplitz covariances of purified fields in
 all positions

---
 pymaster/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..8477de4 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -219,6 +219,8 @@ class NmtCovarianceWorkspace(object):
 
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             fla1.ainfo.lmax, fla1, flb1)
+        ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
+                            fla1.ainfo.lmax, fla2, flb2)
 
         if self.wsp is not None:
             lib.covar_workspace_free(self.wsp)
-- 
2.43.0


From e8fe85c7b0daa0a7a0672a59ff7d2ae043ad09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 45/62] fix: keep exact elements of coupling matrices in the
 Toeplitz approximation

---
 src/nmt_master.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 9083a7c..7b4b279 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -945,6 +945,9 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         flouble m;
 	int is_den_zero;
         int lx=l_exact+l2-l3;
+        //Keep elements that have been computed exactly
+        if(l2<=lend_toeplitz(l3, l_toeplitz, l_exact, dl_band, c->lmax))
+          continue;
         for(ic=0;ic<c->npcl;ic++) {
           if(c->has_00) {
             mat = c->xi_00[ic];
-- 
2.43.0


From de7e96c1bc27e67d979846fdd61c1154abb1c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 46/62] fix: refuse NaN as default tolerance of the
 pseudo-inverse

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index c82f7e6..780bea7 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -113,7 +113,7 @@ def set_tol_pinv_default(tol_pinv):
     Args:
         tol_pinv (:obj:`float`): Relative eigenvalue threshold.
     """
-    if (tol_pinv > 1) or (tol_pinv < 0):
+    if not (0 <= tol_pinv <= 1):
         raise ValueError('tol_pinv must be between 0 and 1.')
     nmt_params.tol_pinv_default = tol_pinv
 
-- 
2.43.0


From 6b3853adae28b9a7c488f4c7efda03f3ccc66a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 47/62] fix: refuse FKP normalisation of fields with different
 pixelizations

---
 pymaster/workspaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 769487b..b53287f 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -315,6 +315,9 @@ class NmtWorkspace(object):
                                      "catalog fields unless they are the "
                                      "same field.")
             else:
+                if fl1.minfo != fl2.minfo:
+                    raise ValueError("Cannot use FKP normalisation for "
+                                     "fields with different pixelizations.")
                 msk1 = fl1.get_mask()
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
-- 
2.43.0


From b59b0fb4a10afe0017520a3b35357e1e8e3d72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 48/62] fix: convert arrays with non-native byte order or
 alignment passed to the native code

---
 pymaster/namaster_wrap.c | 7 +++++--
 pymaster/numpy.i         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..052843a 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -4008,15 +4008,18 @@ void get_ell_sampling_flat(nmt_field_flat *f, double *dout, int ndout)
   {
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
+    /* Arrays with other byte orders or alignments must be converted too */
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            PyArray_EquivTypenums(array_type(input),typecode)) &&
+        PyArray_ISBEHAVED_RO((PyArrayObject*) input))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
     }
     else
     {
-      py_obj = PyArray_FROMANY(input, typecode, 0, 0, NPY_ARRAY_DEFAULT);
+      py_obj = PyArray_FROMANY(input, typecode, 0, 0, NPY_ARRAY_DEFAULT |
+                               NPY_ARRAY_NOTSWAPPED);
       /* If NULL, PyArray_FromObject will have set python error value.*/
       ary = (PyArrayObject*) py_obj;
       *is_new_object = 1;
diff --git a/pymaster/numpy.i b/pymaster/numpy.i
index 7429677..3ffba28 100644
--- a/pymaster/numpy.i
+++ b/pymaster/numpy.i
@@ -233,15 +233,18 @@
   {
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
+    /* Arrays with other byte orders or alignments must be converted too */
     if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+                            PyArray_EquivTypenums(array_type(input),typecode)) &&
+        PyArray_ISBEHAVED_RO((PyArrayObject*) input))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
     }
     else
     {
-      py_obj = PyArray_FROMANY(input, typecode, 0, 0, NPY_ARRAY_DEFAULT);
+      py_obj = PyArray_FROMANY(input, typecode, 0, 0, NPY_ARRAY_DEFAULT |
+                               NPY_ARRAY_NOTSWAPPED);
       /* If NULL, PyArray_FromObject will have set python error value.*/
       ary = (PyArrayObject*) py_obj;
       *is_new_object = 1;
-- 
2.43.0


From 6be058f96f64d12519b4bbfe3b095c82618d613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 49/62] fix: copy the beams of fields instead of keeping the
 caller's arrays

---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 35bf93b..1a73224 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -935,7 +935,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From ed47768688cd4341371a36eb58810db4ad3713d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 50/62] fix: refuse empty masks and beams in flat-sky fields

---
 pymaster/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 1a73224..cd5a775 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -635,6 +635,9 @@ class NmtFieldFlat(object):
                              "flat-sky field")
         # Flatten arrays and check dimensions
         shape_2D = np.shape(mask)
+        if len(shape_2D) != 2 or 0 in shape_2D:
+            raise ValueError("The mask of a flat-sky field must be a "
+                             "non-empty 2D array")
         self.ny = shape_2D[0]
         self.nx = shape_2D[1]
 
@@ -702,6 +705,8 @@ class NmtFieldFlat(object):
         # Form beam
         if isinstance(beam, (list, tuple, np.ndarray)):
             beam_use = beam
+            if np.size(beam_use) == 0:
+                raise ValueError("Input beam is empty")
         else:
             if beam is None:
                 beam_use = np.array([[-1.], [-1.]])
-- 
2.43.0


From a82aecfb184a3b35c83bd2204cca29a0a419ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 51/62] fix: refuse negative bandpower widths

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 53e1c0c..f00346d 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -3,6 +3,8 @@ import numpy as np
 
 
 def _get_bpw_arrays_linear(lmax, nlb):
+    if nlb <= 0:
+        raise ValueError("Bandpowers must contain at least one multipole")
     ells = np.arange(lmax+1, dtype=np.int32)
     bpws = ((ells-2) // nlb).astype(np.int32)
     bpws[:2] = -1
-- 
2.43.0


From eb6ba246b96d6510eed3f328fb010b485017afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 52/62] fix: refuse transposed variance maps in noise
 deprojection bias

---
 pymaster/workspaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index b53287f..78190a4 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -840,6 +840,9 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
     if not f1.minfo.is_healpix:  # Same pixel ordering as the field's maps
+        if np.ndim(map_var) > 1 and np.shape(map_var)[-2:] != (f1.minfo.ny,
+                                                               f1.minfo.nx):
+            raise ValueError("Variance map doesn't match map resolution")
         sig2 = f1.minfo.reform_map(sig2.reshape([f1.minfo.ny, f1.minfo.nx]))
 
     pcl_shape = (f1.nmaps * f1.nmaps, f1.ainfo.lmax+1)
-- 
2.43.0


From 48c0d9027b4d28c621b71d5fcb86a461d878b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 53/62] fix: refuse negative spins of fields without maps

---
 pymaster/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index cd5a775..8e444de 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -205,6 +205,8 @@ class NmtField(object):
         if maps is None:
             if spin is None:
                 raise ValueError("Please supply field spin")
+            if spin < 0:
+                raise ValueError("Spins must be positive")
             self.spin = spin
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
@@ -954,6 +956,8 @@ class NmtFieldCatalog(NmtField):
             if spin is None:
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
+            if spin < 0:
+                raise ValueError("Spins must be positive")
             self.spin = spin
             return
 
-- 
2.43.0


From 3e5ecd5f5a265a84413a46cee50fa6a99105e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 54/62] fix: refuse flat-sky apodization types that are not
 strings before calling the native code

---
 pymaster/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 780bea7..22b4cbb 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -572,6 +572,8 @@ def mask_apodization_flat(mask_in, lx, ly, aposize, apotype="C1"):
     """
     if mask_in.ndim != 2:
         raise ValueError("Mask must be a 2D array")
+    if not isinstance(apotype, str):
+        raise TypeError("Apodization type must be a string")
     nx = len(mask_in[0])
     ny = len(mask_in)
     mask_apo_flat = lib.apomask_flat(
-- 
2.43.0


From 29bebe65389b686cfb3a4228c4435828a46e9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 55/62] fix: refuse workspaces for other spins in flat-sky
 power spectra

---
 src/nmt_master_flat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3710a54..0071084 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -932,6 +932,8 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(nmt_bins_flat_differ(bin,w->bin))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if(w->ncls!=fl1->nmaps*fl2->nmaps)
+      report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace is for fields with different spins!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
-- 
2.43.0


From dd74c3fba3a5940be0d160dd566097c380600e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 56/62] fix: refuse empty masks in flat-sky apodization

---
 pymaster/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 22b4cbb..9cec0d1 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -570,8 +570,8 @@ def mask_apodization_flat(mask_in, lx, ly, aposize, apotype="C1"):
     Returns:
         (`array`): Apodized mask.
     """
-    if mask_in.ndim != 2:
-        raise ValueError("Mask must be a 2D array")
+    if mask_in.ndim != 2 or mask_in.size == 0:
+        raise ValueError("Mask must be a non-empty 2D array")
     if not isinstance(apotype, str):
         raise TypeError("Apodization type must be a string")
     nx = len(mask_in[0])
-- 
2.43.0


From e10a4ecf04b8bda0fcf8c2d98bfb3871493d3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 57/62] fix: refuse flat-sky simulations without pixels

---
 pymaster/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 9cec0d1..c4f1675 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -749,6 +749,9 @@ def synfast_flat(nx, ny, lx, ly, cls, spin_arr, beam=None, seed=-1):
         (`array`): An array of flat-sky maps (1 for each spin-0 field, 2 for \
             each spin-s field) with shape ``(nmaps, ny, nx)``.
     """
+    if (nx <= 0) or (ny <= 0):
+        raise ValueError("Maps must have at least one pixel")
+
     if seed < 0:
         seed = np.random.randint(50000000)
 
-- 
2.43.0


From a9ebe0b1d2f4b6ace820411cd3c42a8d108a8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 58/62] fix: refuse power spectra without multipoles in
 flat-sky functions

---
 pymaster/namaster.i      | 6 ++++++
 pymaster/namaster_wrap.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 710d208..4714663 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -180,6 +180,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -404,6 +405,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   
   cls=malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
@@ -549,6 +551,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
@@ -674,6 +677,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -812,6 +816,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=malloc(ncl1*sizeof(double *));
@@ -852,6 +857,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 052843a..095392f 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3147,6 +3147,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -3371,6 +3372,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   
   cls=malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
@@ -3516,6 +3518,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
@@ -3641,6 +3644,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -3779,6 +3783,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=malloc(ncl1*sizeof(double *));
@@ -3819,6 +3824,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
-- 
2.43.0


From 78b18a27cb81b86886687e8d52ca3935c0a89434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 59/62] fix: update flat-sky masks atomically when smoothing
 them

Discs around different masked pixels overlap, so several threads may
update the same pixel at once (the HEALPix version already does this
atomically).
---
 src/nmt_mask_flat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index ffe4773..c039cac 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -125,6 +125,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
 	      if(ix+ixx-nx_patch>=fs->nx) break;
 	      if(rarr[iyy][ixx]<=x_thr) {
 		int index2=ix+ixx-nx_patch+fs->nx*(iy+iyy-ny_patch);
+#pragma omp atomic
 		mask_dum[index2]*=0;
 	      }
 	    }
-- 
2.43.0


From e5337fe93bc50e5b15c5399e787b5dd8d642aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:20 +0000
Subject: [PATCH 60/62] fix: release all the memory of curved-sky covariance
 workspaces

---
 src/nmt_covar.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index adb1915..f2a9073 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
@@ -85,6 +86,16 @@ void nmt_covar_workspace_free(nmt_covar_workspace *cw)
       free(cw->xi22m_1221[ii]);
     }
   }
+  free(cw->xi00_1122);
+  free(cw->xi00_1221);
+  if(cw->spin0_only==0) {
+    free(cw->xi02_1122);
+    free(cw->xi02_1221);
+    free(cw->xi22p_1122);
+    free(cw->xi22p_1221);
+    free(cw->xi22m_1122);
+    free(cw->xi22m_1221);
+  }
   free(cw);
 }
 
-- 
2.43.0


From 7aa7bab7edefa3ed80f18eec170aee40e4df3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:43 +0000
Subject: [PATCH 61/62] fix: refuse shallow copies of objects that own C
 structures

---
 pymaster/bins.py       | 8 ++++++++
 pymaster/covariance.py | 8 ++++++++
 pymaster/field.py      | 4 ++++
 pymaster/workspaces.py | 8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index f00346d..e0247b2 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -174,6 +174,10 @@ class NmtBin(object):
         return cls(lmax=np.amax(ells), bpws=bpws, ells=ells, weights=weights,
                    f_ell=f_ell)
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtBin objects can't be copied")
+
     def __del__(self):
         if getattr(self, 'bin', None) is not None:
             if lib.bins_free is not None:
@@ -333,6 +337,10 @@ class NmtBinFlat(object):
         self.bin = None
         self.bin = lib.bins_flat_create_py(l0, lf)
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtBinFlat objects can't be copied")
+
     def __del__(self):
         if self.bin is not None:
             if lib.bins_flat_free is not None:
diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 8477de4..949dbcc 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -139,6 +139,10 @@ class NmtCovarianceWorkspace(object):
         """
         return cls(fname=fname, force_spin0_only=force_spin0_only)
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtCovarianceWorkspace objects can't be copied")
+
     def __del__(self):
         if self.wsp is not None:
             if lib.covar_workspace_free is not None:
@@ -270,6 +274,10 @@ class NmtCovarianceWorkspaceFlat(object):
     def __init__(self):
         self.wsp = None
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtCovarianceWorkspaceFlat objects can't be copied")
+
     def __del__(self):
         if self.wsp is not None:
             if lib.covar_workspace_flat_free is not None:
diff --git a/pymaster/field.py b/pymaster/field.py
index 8e444de..b61b824 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -738,6 +738,10 @@ class NmtFieldFlat(object):
                                                           int(lite))
         self.lite = lite
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtFieldFlat objects can't be copied")
+
     def __del__(self):
         if self.fl is not None:
             if lib.field_flat_free is not None:
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 78190a4..5584357 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -133,6 +133,10 @@ class NmtWorkspace(object):
         """
         return cls(fname=fname, read_unbinned_MCM=read_unbinned_MCM)
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtWorkspace objects can't be copied")
+
     def __del__(self):
         if self.wsp is not None:
             if lib.workspace_free is not None:
@@ -523,6 +527,10 @@ class NmtWorkspaceFlat(object):
     def __init__(self):
         self.wsp = None
 
+    def __copy__(self):
+        # A shallow copy would share (and free) the same C structure.
+        raise TypeError("NmtWorkspaceFlat objects can't be copied")
+
     def __del__(self):
         if self.wsp is not None:
             if lib.workspace_flat_free is not None:
-- 
2.43.0


From 31ea0c23799b19734734231182d360f30575f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:13 +0000
Subject: [PATCH 62/62] fix: overflow of the l(l+1) prefactor of linear
 bandpowers at high multipoles

---
 pymaster/bins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index e0247b2..e115d82 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -94,7 +94,7 @@ class NmtBin(object):
         ells, bpws = _get_bpw_arrays_linear(3*nside-1, nlb)
         weights = np.ones(len(ells))
         if is_Dell and (f_ell is None):
-            f_ell = ells * (ells+1) / (2*np.pi)
+            f_ell = ells * (ells+1.) / (2*np.pi)
         return cls(lmax=3*nside-1, bpws=bpws, ells=ells, weights=weights,
                    f_ell=f_ell)
 
@@ -131,7 +131,7 @@ class NmtBin(object):
         ells, bpws = _get_bpw_arrays_linear(lmax, nlb)
         weights = np.ones(len(ells))
         if is_Dell and (f_ell is None):
-            f_ell = ells * (ells+1) / (2*np.pi)
+            f_ell = ells * (ells+1.) / (2*np.pi)
         return cls(lmax=lmax, bpws=bpws, ells=ells, weights=weights,
                    f_ell=f_ell)
 
-- 
2.43.0

