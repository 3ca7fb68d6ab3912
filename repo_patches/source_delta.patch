From 4dc9a444eb11a305f60b2b572ad4612b914d2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 01/40] fix: flat band lookup returns no band for multipoles in
 a gap between bands

---
 src/nmt_bins_flat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..6139aae 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -11,8 +11,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback>=0) {
       if(l<bin->ell_0_list[ilback])
 	ilback--;
-      else
+      else if(l<bin->ell_f_list[ilback])
 	return ilback;
+      else //Gap between bands
+	return -1;
     }
     return -1;
   }
@@ -21,8 +23,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback<bin->n_bands) {
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
-      else
+      else if(l>=bin->ell_0_list[ilback])
 	return ilback;
+      else //Gap between bands
+	return -1;
     }
     return -1;
   }
-- 
2.43.0


From 7edf6ceb38cf3ef606ec0265617e0f3fa656eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 02/40] fix: allocate log-factorials up to the largest index
 used by drc3jj_000 (heap over-read)

---
 src/nmt_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..3ab72d7 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -745,11 +745,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  c->lfac = my_malloc(4*(lmax_max+1)*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<4*(lmax_max+1);ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From 8c662e57e1695127a65bb3e27f524f2e7bfd176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 03/40] fix: size Wigner-3j buffers for lmax > lmax_mask
 (out-of-bounds / abort in coupling matrices)

---
 src/nmt_master.c | 80 +++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 3ab72d7..036a506 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -216,24 +216,25 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
   }
 
   int lstart=0;
+  int lmax_max=NMT_MAX(c->lmax, c->lmax_mask);
   int max_spin=NMT_MAX(c->s1, c->s2);
   int has_ss2=(c->s1!=0) && (c->s2!=0) && (c->s1!=c->s2);
   if(!(c->has_00))
     lstart=max_spin;
 
 #pragma omp parallel default(none)              \
-  shared(c, lstart, pcl_masks, lt, has_ss2)     \
+  shared(c, lstart, pcl_masks, lt, has_ss2, lmax_max) \
   shared(tplz_00,tplz_0s,tplz_pp,tplz_mm)
   {
     int il3,ll2,icc;
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(lmax_max+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -246,18 +247,18 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
       for(il3=0;il3<2;il3++) {
         int ll3=l3_list[il3];
         int l1,lmin_here,lmax_here;
-	int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-	int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
+	int lmin_00=0,lmax_00=2*(lmax_max+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(lmax_max+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(lmax_max+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(lmax_max+1));
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_max+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_max+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -495,6 +496,7 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     pcl_masks[i_bb][l2] *= sign_PP*fac;
   }
 
+  int lmax_max=NMT_MAX(lmax, lmax_mask);
   int max_spin=NMT_MAX(spin1, spin2);
   int lstart=max_spin;
   int reuse_ss1=(spin1==spin2);
@@ -503,7 +505,7 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
   int is_ss=(spin1!=0) && (spin2!=0);
 
 #pragma omp parallel default(none)				\
-  shared(pcl_masks, lstart, reuse_ss1, lmax, lmax_mask)		\
+  shared(pcl_masks, lstart, reuse_ss1, lmax, lmax_mask, lmax_max) \
   shared(mask_aniso_1, mask_aniso_2, is_0s, is_s0, is_ss)	\
   shared(spin1, spin2, i_00, i_0e, i_0b, i_e0, i_b0)		\
   shared(i_ee, i_eb, i_be, i_bb, w)
@@ -511,18 +513,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(lmax_max+1)*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(2*(lmax_max+1)*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -532,28 +534,28 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
       for(ll3=lstart;ll3<=lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
 	int l1,lmin_here,lmax_here;
 	int l3fac=2*ll3+1;
-	int lmin_ss1=0,lmax_ss1=2*(lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(lmax_mask+1)+1;
-	int lmin_ss1a=0,lmax_ss1a=2*(lmax_mask+1)+1;
-	int lmin_ss2a=0,lmax_ss2a=2*(lmax_mask+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(lmax_max+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(lmax_max+1)+1;
+	int lmin_ss1a=0,lmax_ss1a=2*(lmax_max+1)+1;
+	int lmin_ss2a=0,lmax_ss2a=2*(lmax_max+1)+1;
 	lmin_here=abs(ll2-ll3);
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_max+1));
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_max+1));
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_max+1));
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_max+1));
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -762,22 +764,22 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     lstart=max_spin;
 
 #pragma omp parallel default(none)              \
-  shared(c, lstart, do_teb, pcl_masks, has_ss2) \
+  shared(c, lstart, do_teb, pcl_masks, has_ss2, lmax_max) \
   shared(l_toeplitz, l_exact, dl_band)
   {
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(lmax_max+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(lmax_max+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(2*(lmax_max+1)*sizeof(double));
+      wigner_02=my_malloc(2*(lmax_max+1)*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -788,11 +790,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         l3_start=ll2;
       for(ll3=l3_start;ll3<=l3_end;ll3++) {
         int l1,lmin_here,lmax_here;
-        int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-        int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-        int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
-        int lmin_12=0,lmax_12=2*(c->lmax_mask+1)+1;
-        int lmin_02=0,lmax_02=2*(c->lmax_mask+1)+1;
+        int lmin_00=0,lmax_00=2*(lmax_max+1)+1;
+        int lmin_ss1=0,lmax_ss1=2*(lmax_max+1)+1;
+        int lmin_ss2=0,lmax_ss2=2*(lmax_max+1)+1;
+        int lmin_12=0,lmax_12=2*(lmax_max+1)+1;
+        int lmin_02=0,lmax_02=2*(lmax_max+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
@@ -811,18 +813,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(lmax_max+1));
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_max+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_max+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(lmax_max+1));
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(lmax_max+1));
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From 88eb3069a4aef096e9d4d5f326869666f158383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 04/40] fix: do not read uninitialised Wigner-3j entries
 outside their range for purified fields

---
 src/nmt_master.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 036a506..dbfb2fd 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -859,11 +859,9 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
 	      }
 	      if(j12<0) { //If out of range, w12 is just 0
 		fac_12=0;
-		j12=0;
 	      }
 	      if(j02<0) { //if out of range, w02 is just 0
 		fac_02=0;
-		j02=0;
 	      }
               w12=j12 < 0 ? 0 : wigner_12[j12];
               w02=j02 < 0 ? 0 : wigner_02[j02];
-- 
2.43.0


From 4696f34b5c08b447eb6d4df232ef02e002769599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 05/40] fix: flat-sky apodization uses the true pixel size
 along y

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From 7564e7be9f0f55834807a5c40b587bb99c09a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 06/40] fix: anisotropic-weight coupling matrix takes the mask
 spectra in the order they are passed (0b and e0 were swapped)

---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..4ae7877 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -745,8 +745,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index dbfb2fd..34317ac 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -424,8 +424,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From e8f63108aaef1b4080b73c85b9ae7b9421bd99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 07/40] fix: sign of the anisotropic-weight coupling matrix for
 odd spins

---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 34317ac..dad9db2 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -479,10 +479,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 8995401e5414f2867323be165100f47b22596255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 08/40] fix: Toeplitz triangle fill does not overwrite exactly
 computed coefficients (band and reference column)

---
 src/nmt_master.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index dad9db2..5eaebe3 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -934,11 +934,14 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   if(l_toeplitz > 0) {
     int l2, l3;
     for(l2=c->lmax+l_exact-l_toeplitz;l2<=c->lmax;l2++) {
-      for(l3=l_exact;l3<=l2+l_toeplitz-c->lmax;l3++){
+      //Column l_exact and the band of width dl_band were computed exactly above
+      for(l3=l_exact+1;l3<=l2+l_toeplitz-c->lmax;l3++){
         flouble **mat;
         flouble m;
 	int is_den_zero;
         int lx=l_exact+l2-l3;
+        if(l2-l3<=dl_band)
+          continue;
         for(ic=0;ic<c->npcl;ic++) {
           if(c->has_00) {
             mat = c->xi_00[ic];
-- 
2.43.0


From f4d5e70a0eab15508904a091d1d215efdc8353f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 09/40] fix: refuse to rebin a workspace read without its
 unbinned matrix (was a NULL dereference)

---
 pymaster/workspaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..8d18f72 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -175,6 +175,8 @@ class NmtWorkspace(object):
                 workspace was initialised.
             beam2 (`array`): Second beam.
         """
+        # Rebinning needs the unbinned mode-coupling matrix
+        self.check_unbinned()
         b1arr = isinstance(beam1, (list, tuple, np.ndarray))
         b2arr = isinstance(beam2, (list, tuple, np.ndarray))
         if ((not b1arr) or (not b2arr)):
@@ -198,6 +200,8 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        # Rebinning needs the unbinned mode-coupling matrix
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 4eeec24d31039850aa1ee25dab1dab8cd41dc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 10/40] fix: bound the error message buffer (long file names
 overflowed the stack)

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From 35d742ce9ae47fd88ec0508d7cf1a0e60b113795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 11/40] fix: restore the FKP normalisation when reading a
 workspace (w2 was left uninitialised)

---
 src/nmt_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..1991fc6 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -388,6 +388,11 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
   check_fits(status,fname,1);
+  // In FKP normalisation the binned MCM is w2 times the identity
+  if(w->norm_type==0)
+    w->w2=0;
+  else
+    w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
   fits_close_file(fptr,&status);
 
   return w;
-- 
2.43.0


From 1c93989a6d451a7205ab8706e7a0e20fc139cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 12/40] fix: write every (band, multipole) entry of a binning
 scheme (multipoles in several bands, and the order within a band, were lost)

---
 src/nmt_io.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 1991fc6..2caf001 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -199,25 +199,24 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      nmt_binning_scheme *b,
 				      int *status)
 {
-  int ii;
-  int nrows=b->ell_max+1;
+  int ii,irow=0;
+  //One row per multipole and band (a multipole may be in several bands)
+  int nrows=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
   flouble *weights=my_calloc(nrows,sizeof(flouble));
   flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
 
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      ells[irow]=b->ell_list[ii][jj];
+      bpws[irow]=ii;
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From 8ab705f633852a5c74565f1a8a850636c75665bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 13/40] fix: readers stop at the first FITS error instead of
 using uninitialised sizes; old-format bins readable again

---
 src/nmt_io.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 2caf001..e0bc827 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -36,6 +36,8 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"LMAX_MASK",&(w->lmax_mask),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
+  if(*status)
+    return;
   status_pre = *status;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
   if(*status) {// maybe used old format
@@ -102,6 +104,8 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   if(nrows!=lmax_expect+1) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
@@ -125,6 +129,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -137,6 +143,13 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
+  if(*status) {
+    free(bpws);
+    free(ells);
+    free(weights);
+    free(f_ell);
+    return NULL;
+  }
   b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   if(n_bands!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
@@ -161,6 +174,10 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(b);
+    return NULL;
+  }
   if(nrows!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
@@ -177,7 +194,7 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
-    if(nrows!=b->nell_list[ii]) {
+    if((*status==0) && (nrows!=b->nell_list[ii])) {
       report_error(NMT_ERROR_INCONSISTENT,
 		   "Number of rows doesn't match number of ells\n");
     }
@@ -381,8 +398,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
+  if(status) { // maybe used old format
+    status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+  }
   check_fits(status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
@@ -444,6 +463,8 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -502,6 +523,10 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(fs);
+    return NULL;
+  }
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -540,6 +565,8 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -600,7 +627,13 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   n_el=naxes[0];
+  if(naxes[1]!=n_el) {
+    report_error(NMT_ERROR_INCONSISTENT,
+		 "Inconsistent size for binned MCM\n");
+  }
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
   w->coupling_matrix_binned=my_malloc(n_el*sizeof(flouble *));
@@ -613,7 +646,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
   fits_get_img_size(fptr,2,naxes,status);
-  if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
+  if((*status==0) && ((naxes[0]!=n_el) || (naxes[1]!=n_el))) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Inconsistent size for GSL binned MCM\n");
   }
@@ -680,6 +713,10 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(b);
+    return NULL;
+  }
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -769,8 +806,10 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return NULL;
   n_el=naxes[0];
-  if(n_el!=n_expected)
+  if((n_el!=n_expected) || (naxes[1]!=n_expected))
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
-- 
2.43.0


From a4bb822bc6948a44eaa63dbe9c2dee90e08b84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 14/40] fix: report write errors detected when the file is
 closed

---
 src/nmt_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index e0bc827..7326a0d 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -377,6 +377,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   nmt_coupling_binned_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -750,6 +751,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -857,6 +859,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
     check_fits(status,fname,0);
   }
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -946,6 +949,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
-- 
2.43.0


From 553c0be0382353408ef45cb2acd90479203943eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 15/40] fix: coupled covariance is zero (not uninitialised
 memory) for multipoles outside all bands

---
 src/nmt_covar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..645e16c 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -108,6 +108,9 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
 
+  // Multipoles outside all bands have no covariance
+  memset(covar_out,0,((size_t)(wa->ncls*wb->ncls))*(cw->lmax+1)*(cw->lmax+1)*sizeof(flouble));
+
 #pragma omp parallel default(none)			\
   shared(cw,spin_a,spin_b,spin_c,spin_d)                \
   shared(wa,wb,clac,clad,clbc,clbd)			\
-- 
2.43.0


From b5ac4368be9a5864cbec6bca8f27da8999ac04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 16/40] fix: release the log-factorials of a covariance
 workspace

---
 src/nmt_covar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 645e16c..1db0e13 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
-- 
2.43.0


From 09e9d988291f543101cee51fd74f042764404077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 17/40] fix: sign of the EB x EB contributions to Gaussian
 covariances

<E_a E_c^*> picks up C^EB_ac through the mixing kernel W^ac_EB and <E_b^* E_d>
picks up C^EB_bd through its complex conjugate, so equal mixing signs enter with
+xi22m and opposite ones with -xi22m (exact for constant antisymmetric EB).
---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 5971ad5..c1288e0 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -438,9 +438,9 @@ int cov_get_coupling_pair_index(int na,int nc,int nb,int nd,
     return IND_COV_PP;
   if(((ind1==IND_COV_MP) && (ind2==IND_COV_MP)) ||
      ((ind1==IND_COV_MM) && (ind2==IND_COV_MM)))
-    return IND_COV_MMM;
+    return IND_COV_MMP;
   if(((ind1==IND_COV_MP) && (ind2==IND_COV_MM)) ||
      ((ind1==IND_COV_MM) && (ind2==IND_COV_MP)))
-    return IND_COV_MMP;
+    return IND_COV_MMM;
   return IND_COV_ZERO;
 }
-- 
2.43.0


From f21b2fd70f22ccc8fdc1a943f8f627e91ad8aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 18/40] fix: report GSL errors (e.g. singular coupling
 matrices) instead of aborting the process

---
 src/utils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index c1288e0..229607d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -7,9 +7,16 @@ int nmt_exception_status;
 int nmt_error_policy=EXIT_ON_ERROR;
 char nmt_error_message[256]="No error\n";
 
+static void gsl_error_to_nmt(const char *reason,const char *file,int line,int gsl_errno)
+{
+  report_error(NMT_ERROR_INCONSISTENT,"GSL error: %s\n",reason);
+}
+
 void set_error_policy(int i)
 {
   nmt_error_policy=i;
+  //GSL's own handler aborts the process
+  gsl_set_error_handler((i==THROW_ON_ERROR) ? &gsl_error_to_nmt : NULL);
 }
 
 void report_error(int level,char *fmt,...)
-- 
2.43.0


From f2ed9eed6a6c04dedfdc14f0fb4e4503a3131165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 19/40] fix: write flat-sky geometry and cuts with full
 precision (couple_cell changed after a round trip)

---
 src/nmt_io.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 7326a0d..ff25d7b 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -428,11 +428,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  fits_write_key_dbl(fptr,"LMAX",w->lmax,-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_I",w->ellcut_x[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_F",w->ellcut_x[1],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_I",w->ellcut_y[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_F",w->ellcut_y[1],-17,NULL,status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -494,11 +494,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  fits_write_key_dbl(fptr,"LX",fs->lx,-17,NULL,status);
+  fits_write_key_dbl(fptr,"LY",fs->ly,-17,NULL,status);
+  fits_write_key_dbl(fptr,"PIXSIZE",fs->pixsize,-17,NULL,status);
+  fits_write_key_dbl(fptr,"DELL",fs->dell,-17,NULL,status);
+  fits_write_key_dbl(fptr,"I_DELL",fs->i_dell,-17,NULL,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From 220e2b421ab9d7bbadd38842df97887b3fe05326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 20/40] fix: disc queries return whole rings when the pixel
 range closes on itself or the padded radius exceeds pi

---
 src/healpix_extra.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..d11e404 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -325,6 +325,11 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     kshift=1;
   }
 
+  //The pixel range may close on itself before dphi reaches M_PI
+  shift=0.5*kshift;
+  if(nint_he(nr*(phi0+dphi)/(2*M_PI)-shift)-nint_he(nr*(phi0-dphi)/(2*M_PI)-shift)>=nr)
+    take_all=1;
+
   //Constructs the pixel list
   if(take_all) {
     *nir=ipix2-ipix1+1;
@@ -336,7 +341,6 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     return;
   }
 
-  shift=0.5*kshift;
   if(conservative) {
     ip_low=nint_he(nr*phi_low/(2*M_PI)-shift);
     ip_hi=nint_he(nr*phi_hi/(2*M_PI)-shift);
@@ -417,6 +421,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI) //Whole sphere
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
-- 
2.43.0


From 9becd5f863cfa44f91077dc17c556b254669ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 21/40] fix: apodization scales whose padded radius exceeds pi
 (or is about one pixel) no longer crash inside the OpenMP region

---
 src/nmt_mask.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..3c1fbec 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -37,13 +37,16 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
     } //end omp for
   }//end omp parallel
 
-  int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
+  double radius=NMT_MIN(1.2*aporad,M_PI);
+  int lenlist0=(int)(4*npix*(1-cos(radius)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  //Inclusive queries also return the pixels around the disc
+  lenlist0=(int)(4*npix*(1-cos(NMT_MIN(radius+M_PI/nside,M_PI))));
   
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
-  shared(nside,cthv,phiv,aporad,apotyp,lenlist0)
+  shared(nside,cthv,phiv,radius,apotyp,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -55,7 +58,7 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
 	int lenlist_half=lenlist0/2;
 	flouble *v0=vec+3*ip;
 	flouble x2dist=1000;
-	he_query_disc(nside,cthv[ip],phiv[ip],1.2*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv[ip],phiv[ip],radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 	  if(mask_in[ip2]<=0) {
@@ -93,12 +96,15 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   double aporad=aposize*M_PI/180;
   memcpy(mask_out,mask_in,npix*sizeof(flouble));
 
-  int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
+  double radius=NMT_MIN(2.5*aporad,M_PI);
+  int lenlist0=(int)(4*npix*(1-cos(radius)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  //Inclusive queries also return the pixels around the disc
+  lenlist0=(int)(4*npix*(1-cos(NMT_MIN(radius+M_PI/nside,M_PI))));
 
 #pragma omp parallel default(none)                      \
-  shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
+  shared(npix,mask_in,mask_out,nside,radius,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -114,7 +120,7 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
 	phiv=atan2(v[1],v[0]);
 	if(phiv<0)
 	  phiv+=2*M_PI;
-	he_query_disc(nside,cthv,phiv,2.5*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv,phiv,radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 #pragma omp atomic
-- 
2.43.0


From d472e56cb6b7050defbad034e9780762e9123ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 22/40] fix: a zero apodization scale leaves the mask unchanged
 for the 'Smooth' scheme too (HEALPix)

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..4a8ca2b 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -528,7 +528,7 @@ def mask_apodization(mask_in, aposize, apotype="C1"):
     m = lib.apomask(mask_in.astype("float64"), len(mask_in),
                     aposize, apotype)
 
-    if apotype != 'Smooth':
+    if apotype != 'Smooth' or aposize == 0:
         return m
 
     # Smooth
-- 
2.43.0


From 7755b612fcbbfe6bddd0163c224fd0340d783130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 23/40] fix: flat-sky mode loops used the Fourier coefficient
 at (|kx|,ky) for modes with kx<0 (wrong with one-sided ky cuts and masks
 without mirror symmetry)

---
 src/flatsky_utils.c   | 8 +++++---
 src/nmt_covar_flat.c  | 8 +++++---
 src/nmt_master_flat.c | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..e594c0e 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //a(kx,ky) is the complex conjugate of a(-kx,-ky)
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..37d13cd 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -98,17 +98,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //a(kx,ky) is the complex conjugate of a(-kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..cda1cb4 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -180,17 +180,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //a(kx,ky) is the complex conjugate of a(-kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From 09c53e33c3903b77728b0e20ae9b07883376935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 24/40] fix: flat-sky purification used wavenumbers in pixel
 units, wrong for non-square pixels

---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From 54f9dbd7a039ae5e3dbcc70e3843c5f915085e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 25/40] fix: compute_full_master_flat refuses workspaces with a
 different number of spectra (read and wrote out of bounds)

---
 src/nmt_master_flat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index cda1cb4..30dc0cb 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -929,6 +929,8 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(bin->n_bands!=w->bin->n_bands)
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if(fl1->nmaps*fl2->nmaps!=w->ncls)
+      report_error(NMT_ERROR_INCONSISTENT,"Input workspace has a different number of power spectra!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
-- 
2.43.0


From eefa9c8dc0ccf3246ab436fda4e7eb5420a6e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 26/40] fix: flat-sky coupling matrices of fields with
 differently sampled beams (shared interpolation cache read out of bounds)

---
 src/nmt_master_flat.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 30dc0cb..f306a36 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -168,7 +168,9 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
     flouble dky=2*M_PI/fs->ly;
     int iy1,ix1;
     int *n_cells_thr=my_calloc(w->bin->n_bands,sizeof(int));
-    gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
+    //One per beam: they may be sampled at different multipoles
+    gsl_interp_accel *intacc_beam1=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam2=gsl_interp_accel_alloc();
 
 #pragma omp for
     for(iy1=0;iy1<fs->ny;iy1++) {
@@ -198,8 +200,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
 
 	kmod=sqrt(kx*kx+ky*ky);
-	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam);
-	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam);	
+	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam1);
+	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam2);	
 	kmodarr[index]=kmod;
 	beamprod[index]=beam1*beam2;
 	ik=nmt_bins_flat_search_fast(w->bin,kmod,ik);
@@ -267,7 +269,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	w->n_cells[iy1]+=n_cells_thr[iy1];
     } //end omp critical
     free(n_cells_thr);
-    gsl_interp_accel_free(intacc_beam);
+    gsl_interp_accel_free(intacc_beam1);
+    gsl_interp_accel_free(intacc_beam2);
   } //end omp parallel
   free(x_out_range);
   free(y_out_range);
-- 
2.43.0


From e4b2124b64a1474e540c840823a8fb5b944b908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 27/40] fix: flat-sky pipeline with a single band (one-point
 interpolation aborted the process)

---
 src/nmt_field_flat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index 91c96d8..a1da02d 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -10,8 +10,11 @@ nmt_k_function *nmt_k_function_alloc(int nk,flouble *karr,flouble *farr,flouble
     f->x0=karr[0];
     f->xf=karr[nk-1];
     f->yf=yf;
-    f->spl=gsl_spline_alloc(gsl_interp_linear,nk);
-    gsl_spline_init(f->spl,karr,farr,nk);
+    f->spl=NULL;
+    if(nk>1) { //With a single point there is nothing to interpolate
+      f->spl=gsl_spline_alloc(gsl_interp_linear,nk);
+      gsl_spline_init(f->spl,karr,farr,nk);
+    }
   }
   return f;
 }
-- 
2.43.0


From 520fa3f5ae4ed3ab6e0ac1aac9c0715b57966a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 28/40] fix: flat-sky covariances accepted fields or workspaces
 with different patches or bandpower edges

---
 src/nmt_covar_flat.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 37d13cd..45adfa8 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -24,6 +24,19 @@ static nmt_binning_scheme_flat *nmt_bins_copy(nmt_binning_scheme_flat *b_or)
   return b;
 }
 
+//Returns 1 if both schemes have the same bandpower edges
+static int same_bins(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2)
+{
+  int ii;
+  if(b1->n_bands!=b2->n_bands)
+    return 0;
+  for(ii=0;ii<b1->n_bands;ii++) {
+    if((b1->ell_0_list[ii]!=b2->ell_0_list[ii]) || (b1->ell_f_list[ii]!=b2->ell_f_list[ii]))
+      return 0;
+  }
+  return 1;
+}
+
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt_field_flat *fla2,
 							nmt_binning_scheme_flat *ba,
 							nmt_field_flat *flb1,nmt_field_flat *flb2,
@@ -33,10 +46,13 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   
   if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny) ||
+     (fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
-  if(ba->n_bands!=bb->n_bands)
+  if(!same_bins(ba,bb))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
@@ -321,7 +337,7 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 					  flouble **clac,flouble **clad,
 					  flouble **clbc,flouble **clbd,flouble *covar_out)
 {
-  if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
+  if((!same_bins(wa->bin,cw->bin)) || (!same_bins(wb->bin,cw->bin)))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
 
   int nmaps_a=spin_a ? 2 : 1;
-- 
2.43.0


From a792cca016c9e07a447021884ccc38b46373de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 29/40] fix: pseudo-inverse of a null template matrix is zero,
 not NaN

---
 pymaster/utils.py | 3 ++-
 src/utils.c       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 4a8ca2b..37111e8 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -793,7 +793,8 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    # The second condition covers the null matrix
+    goodw = (w >= tol_pinv*np.max(w)) & (w > 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
diff --git a/src/utils.c b/src/utils.c
index 229607d..0e2abd2 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -369,7 +369,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v<threshold*eval_max) || (eval_max<=0)) //Second condition covers the null matrix
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From cb97498bd5ebefbb16f2be4f802ecee10a982595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 30/40] fix: purification with different multipole limits for
 the field and its mask

---
 pymaster/field.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..ab599cb 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,14 +472,14 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls = np.arange(max(self.ainfo.lmax, self.ainfo_mask.lmax)+1)
         # The minus sign is because of the definition of E-modes
         fl = -np.sqrt((ls+1.0)*ls)
-        walm = hp.almxfl(alm_mask, fl,
+        walm = hp.almxfl(alm_mask, fl[:self.ainfo_mask.lmax+1],
                          mmax=self.ainfo_mask.mmax)
         walm = np.array([walm, walm*0])
         wmap = ut.alm2map(walm, 1, self.minfo, self.ainfo_mask)
@@ -504,7 +504,8 @@ class NmtField(object):
         # (E-mode definition for spin=0).
         fl[2:] = -np.sqrt((ls[2:]+2.0)*(ls[2:]-1.0))
         fl[:2] = 0
-        walm[0] = hp.almxfl(walm[0], fl, mmax=self.ainfo_mask.mmax)
+        walm[0] = hp.almxfl(walm[0], fl[:self.ainfo_mask.lmax+1],
+                            mmax=self.ainfo_mask.mmax)
         wmap = ut.alm2map(walm, 2, self.minfo, self.ainfo_mask)
         # Product with spin-2 mask
         maps = np.array([wmap[0]*maps_u[0]+wmap[1]*maps_u[1],
-- 
2.43.0


From 6a2dd4c12ccb2df6ae08f1553bf9f535e0c618a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 31/40] fix: uncorrelated-noise deprojection bias ignored the
 pixel ordering of CAR variance maps

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 8d18f72..4f18402 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -814,8 +814,12 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if n_iter is None:
         n_iter = ut.nmt_params.n_iter_default
 
-    # Flatten in case it's a 2D map
-    sig2 = map_var.flatten()
+    # Flatten in case it's a 2D map (following the pixel ordering of
+    # the field, which may differ from that of the input map).
+    if f1.minfo.is_healpix or np.ndim(map_var) == 1:
+        sig2 = map_var.flatten()
+    else:
+        sig2 = f1.minfo.reform_map(map_var)
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
 
-- 
2.43.0


From a163daf5b38137a429e87a64a94c2e72f6b4ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 32/40] fix: uncorrelated-noise deprojection bias for spin
 fields (missing E/B transpose) and purified fields

---
 pymaster/workspaces.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 4f18402..ce10745 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -837,14 +837,21 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
         # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(),
+                                fj*(f1.mask*sig2)[None, :],
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
                            for a2 in fj_v_s])
-            pcl_ff[i, j, :, :, :] = cl
-    clb -= 2*np.einsum('ij,ijklm', f1.iM, pcl_ff)
+            # Both orderings of the two field components contribute
+            pcl_ff[i, j, :, :, :] = cl + cl.transpose(1, 0, 2)
+    clb -= np.einsum('ij,ijklm', f1.iM, pcl_ff)
 
     # Second term in Eq. 39 of the namaster paper
     # PCL(fi, fs)
-- 
2.43.0


From 604e3699cdd7a2c5c8907aef4a032fd4c16522ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 33/40] fix: beams longer than the maximum multipole were
 accepted by fields but refused by every workspace

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index ce10745..2e6cafc 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -313,6 +313,10 @@ class NmtWorkspace(object):
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
+        # Beams may be sampled beyond the maximum multipole
+        beam1 = fl1.beam[:fl1.ainfo.lmax+1]
+        beam2 = fl2.beam[:fl2.ainfo.lmax+1]
+
         if anisotropic_mask_any:
             self.wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
@@ -320,7 +324,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             self.wsp = lib.comp_coupling_matrix(
@@ -329,7 +333,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         self.has_unbinned = True
 
-- 
2.43.0


From cc9fe190dda957acb11ee38778c93aa038a41455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 34/40] fix: flat-sky simulations with the same seed depended
 on the number and scheduling of threads

---
 src/flatsky_utils.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index e594c0e..fe53081 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -483,19 +483,17 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //One seed per row, so the output depends only on `seed`
+  //(and not on the number of threads or their scheduling).
+  unsigned long *row_seeds=my_malloc(ny*sizeof(unsigned long));
+  gsl_rng *rng_seeds=init_rng((unsigned int)seed);
+  for(imap=0;imap<ny;imap++)
+    row_seeds[imap]=gsl_rng_get(rng_seeds);
+  end_rng(rng_seeds);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,row_seeds,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -507,8 +505,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
+    gsl_rng *rng=init_rng(0);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -516,6 +513,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     for(iy=0;iy<ny;iy++) {
       int ix;
       flouble ky;
+      gsl_rng_set(rng,row_seeds[iy]);
       if(2*iy<=ny)
 	ky=iy*dky;
       else
-- 
2.43.0


From aae88ee6ef6afbf1eb1f746cf4b0d39f36a13321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 35/40] fix: power of simulated flat-sky maps on the Nyquist
 columns

---
 src/flatsky_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index fe53081..5849635 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -563,11 +563,11 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble bm=nmt_k_function_eval(beam[imp1],kmod,intacc_beam);
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
-	    if(ix==0) {
+	    if((ix==0) || (2*ix==nx)) { //Columns containing pairs of conjugate modes
 	      if(iy>ny/2)
 		continue;
 	      else {
-		if(iy==0)
+		if((iy==0) || (2*iy==ny)) //Self-conjugate modes
 		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 		else {
 		  int iyy=ny-iy;
-- 
2.43.0


From 083a8a716b0254c2f70e0284f3dc4b8ec9f8b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 36/40] fix: synfast_spherical accepted short beams for all
 fields but the first

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 37111e8..1e28a3b 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -656,7 +656,7 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     if beam is not None:
         if len(beam) != nfields:
             raise ValueError("Must provide one beam per field")
-        if len(beam[0]) < lmax + 1:
+        if any(len(bl) < lmax + 1 for bl in beam):
             raise ValueError(f"The beam should be provided to ell = {lmax}")
         beam_per = []
         for ifield, n in enumerate(nmap_arr):
-- 
2.43.0


From 9d2ff7d205201ad7b20dfeac41aaf558b00f6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 37/40] fix: synfast_spherical ignored its seed

---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 1e28a3b..7d12ed6 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -650,7 +650,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # healpy uses numpy's global generator: seed it, and restore its state.
+    rng_state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(rng_state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From 040c6fce1e9134a5d01e46f94db172ac40ffd94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 38/40] fix: mask-only fields accepted purification for spins
 other than 2 and anisotropic masks

---
 pymaster/field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index ab599cb..4e4dbb0 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -209,6 +209,13 @@ class NmtField(object):
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
                                  "with scalar fields.")
+            if self.pure_e or self.pure_b:
+                if self.spin != 2:
+                    raise ValueError("Purification only implemented for "
+                                     "spin-2 fields")
+                if self.anisotropic_mask:
+                    raise NotImplementedError("Purification not implemented "
+                                              "for anisotropic masks")
             self.nmaps = 2 if spin else 1
             return
 
-- 
2.43.0


From 6eb140c931658dff81aa7d1da3cf085860e2dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 39/40] fix: negative bandpower indices read memory before the
 start of the binning arrays

---
 pymaster/bins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..0bdbd20 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -196,6 +196,10 @@ class NmtBin(object):
         """
         return lib.get_nell_list(self.bin, self.bin.n_bands)
 
+    def _check_band(self, b):
+        if (b < 0) or (b >= self.bin.n_bands):
+            raise ValueError(f"Bandpower index {b} out of range")
+
     def get_ell_min(self, b):
         """ Returns the minimum ell value used by bandpower with
         index ``b``.
@@ -231,6 +235,7 @@ class NmtBin(object):
             (`array`): Array of multipoles associated with bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_ell_list(self.bin, int(b),
                                 lib.get_nell(self.bin, int(b)))
 
@@ -246,6 +251,7 @@ class NmtBin(object):
             (`array`): Weights associated to multipoles in bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_weight_list(self.bin, int(b),
                                    lib.get_nell(self.bin, int(b)))
 
-- 
2.43.0


From ad337d43280489da3226a4617b3af4e39d8735d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 40/40] fix: NmtBin.from_edges ignored the extra edges of lists
 with different lengths

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 0bdbd20..7316b0a 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -158,6 +158,8 @@ class NmtBin(object):
                 ``is_Dell`` is ignored. If provided, it must be sampled at
                 all :math:`\\ell` s covered by ``ell_ini`` and ``ell_end``.
         """
+        if len(ell_ini) != len(ell_end):
+            raise ValueError("Must provide as many lower as upper edges")
         ells, bpws, weights = [], [], []
         for ib, (li, le) in enumerate(zip(ell_ini, ell_end)):
             nlb = int(le - li)
-- 
2.43.0

