From 2288c91e6db601d6e5cb820e8aae620a4ead8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 01/63] fix: get_ell_min/max return the extremes of bands given
 in any order

---
 pymaster/bins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..8dbaa4e 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -206,7 +206,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Minimum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[0]
+        return np.amin(self.get_ell_list(b))
 
     def get_ell_max(self, b):
         """ Returns the maximum ell value used by bandpower with
@@ -218,7 +218,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Maximum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[-1]
+        return np.amax(self.get_ell_list(b))
 
     def get_ell_list(self, b):
         """ Returns an array with the multipoles in the
-- 
2.43.0


From 8ae887735a3b87a1090e723bc2b7e14464882e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 02/63] fix: flat-sky band search assigned multipoles in gaps
 to a neighbouring band

---
 src/nmt_bins_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..1a4357d 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -12,7 +12,7 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
       if(l<bin->ell_0_list[ilback])
 	ilback--;
       else
-	return ilback;
+	return (l<bin->ell_f_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
@@ -22,7 +22,7 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
       else
-	return ilback;
+	return (l>=bin->ell_0_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
-- 
2.43.0


From 52ab5a1dc76d91e83e286dc1a8194ae67032fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/63] fix: mode coupling with lmax_mask < lmax overran the
 Wigner 3j buffers

---
 src/nmt_covar.c  |  6 +++---
 src/nmt_master.c | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..5b931d1 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -11,15 +11,15 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
   int ii;
   nmt_covar_workspace *cw=my_malloc(sizeof(nmt_covar_workspace));
   cw->lmax=lmax;
-  cw->lmax_mask=lmax_mask;
+  cw->lmax_mask=NMT_MAX(lmax,lmax_mask); // Zero-padded if needed
   cw->spin0_only=spin0_only;
 
   flouble **cl_masks=my_malloc(2*sizeof(flouble));
   cl_masks[0]=my_malloc((cw->lmax_mask+1)*sizeof(flouble));
   cl_masks[1]=my_malloc((cw->lmax_mask+1)*sizeof(flouble));
   for(ii=0;ii<=cw->lmax_mask;ii++) {
-    cl_masks[0][ii]=cl_masks_11_22[ii]*(ii+0.5)/(2*M_PI);
-    cl_masks[1][ii]=cl_masks_12_21[ii]*(ii+0.5)/(2*M_PI);
+    cl_masks[0][ii]=(ii<=lmax_mask) ? cl_masks_11_22[ii]*(ii+0.5)/(2*M_PI) : 0;
+    cl_masks[1][ii]=(ii<=lmax_mask) ? cl_masks_12_21[ii]*(ii+0.5)/(2*M_PI) : 0;
   }
 
   nmt_master_calculator *c;
diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..7806070 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -446,7 +446,7 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 		 "Requesting bandpowers for too high a "
 		 "multipole given map resolution\n");
   lmax_fields=lmax; // ell_max for the maps
-  lmax_large=lmax_mask; // ell_max for the masks
+  lmax_large=NMT_MAX(lmax,lmax_mask); // ell_max for the masks (zero-padded if needed)
 
 
   w=nmt_workspace_new(n_cl,bin,0,
@@ -456,12 +456,12 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     w->beam_prod[l2]=beam1[l2]*beam2[l2];
 
   for(l2=0;l2<=w->lmax_mask;l2++)
-    w->pcl_masks[l2]=pcl_masks_00[l2]*(2*l2+1.)/(4*M_PI);
+    w->pcl_masks[l2]=(l2<=lmax_mask) ? pcl_masks_00[l2]*(2*l2+1.)/(4*M_PI) : 0;
 
   int i_00=0, i_0e=1, i_0b=2, i_e0=3, i_b0=4, i_ee=5, i_eb=6, i_be=7, i_bb=8;
   flouble **pcl_masks=my_malloc(9*sizeof(flouble *));
   for(l2=0;l2<9;l2++)
-    pcl_masks[l2]=my_calloc(lmax_mask+1,sizeof(flouble));
+    pcl_masks[l2]=my_calloc(lmax_large+1,sizeof(flouble));
   memcpy(pcl_masks[i_00], pcl_masks_00, (lmax_mask+1)*sizeof(flouble));
   if(mask_aniso_2) {
     memcpy(pcl_masks[i_0e], pcl_masks_0e, (lmax_mask+1)*sizeof(flouble));
@@ -494,6 +494,7 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     pcl_masks[i_be][l2] *= sign_PP*fac;
     pcl_masks[i_bb][l2] *= sign_PP*fac;
   }
+  lmax_mask=lmax_large; // Multipoles beyond the input lmax_mask are zero
 
   int max_spin=NMT_MAX(spin1, spin2);
   int lstart=max_spin;
@@ -1067,7 +1068,7 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
 		 "Requesting bandpowers for too high a "
 		 "multipole given map resolution\n");
   lmax_fields=lmax; // ell_max for the maps
-  lmax_large=lmax_mask; // ell_max for the masks
+  lmax_large=NMT_MAX(lmax,lmax_mask); // ell_max for the masks (zero-padded if needed)
   w=nmt_workspace_new(n_cl,bin,is_teb,
 		      lmax_fields,lmax_large,norm_type,w2);
 
@@ -1075,7 +1076,7 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
     w->beam_prod[l2]=beam1[l2]*beam2[l2];
 
   for(l2=0;l2<=w->lmax_mask;l2++)
-    w->pcl_masks[l2]=pcl_masks[l2]*(2*l2+1.)/(4*M_PI);
+    w->pcl_masks[l2]=(l2<=lmax_mask) ? pcl_masks[l2]*(2*l2+1.)/(4*M_PI) : 0;
 
   // Compute coupling coefficients
   nmt_master_calculator *c=nmt_compute_master_coefficients(w->lmax, w->lmax_mask,
-- 
2.43.0


From b3de795f1cca50175cdf8c42f7078012794ad241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/63] fix: joint T-E-B coupling matrix had the wrong sign in
 its 0-0 and s-s blocks for odd spins

---
 src/nmt_master.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 7806070..1c9832f 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1093,8 +1093,13 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
     int ll2,ll3;
     int pe1=pure_e1,pe2=pure_e2,pb1=pure_b1,pb2=pure_b2;
     int sign_overall=1;
-    if((spin1+spin2) & 1)
-      sign_overall=-1;
+    int sign_teb_0s=1; // For T-E-B matrices only the 0-s terms carry a sign
+    if((spin1+spin2) & 1) {
+      if(w->ncls==7)
+        sign_teb_0s=-1;
+      else
+        sign_overall=-1;
+    }
 
 #pragma omp for schedule(dynamic)
     for(ll2=0;ll2<=w->lmax;ll2++) {
@@ -1118,8 +1123,8 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
         }
         if(w->ncls==7) {
           w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
-          w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
-          w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
+          w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=sign_teb_0s*fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
+          w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=sign_teb_0s*fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
           w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
           w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
           w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
-- 
2.43.0


From bfc8763b21119c481904146d22ecca36ed6e67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 05/63] fix: refuse to update beams or bins of a workspace
 without its unbinned matrix

The C code dereferenced the missing matrix and crashed the process.
---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..7c498c6 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -179,6 +179,7 @@ class NmtWorkspace(object):
         b2arr = isinstance(beam2, (list, tuple, np.ndarray))
         if ((not b1arr) or (not b2arr)):
             raise ValueError("The new beams must be provided as arrays")
+        self.check_unbinned()
 
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
@@ -198,6 +199,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 81424d7cfb0347858c5697724338766abb4e20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 06/63] fix: store the FKP normalisation of a workspace in its
 file

Only its type was written, so updating a workspace read from a file used an
uninitialised value.
---
 src/nmt_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..e36202c 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -18,6 +18,7 @@ static void nmt_workspace_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_write_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
   fits_write_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
+  fits_write_key(fptr,TDOUBLE,"W2",&(w->w2),NULL,status);
   for(ii=0;ii<n_el;ii++) {
     fpixel[1]=ii+1;
     fits_write_pix(fptr,TDOUBLE,fpixel,n_el,w->coupling_matrix_unbinned[ii],status);
@@ -42,6 +43,10 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
     w->norm_type=0;
     *status=status_pre;
   }
+  w->w2=0;
+  fits_read_key(fptr,TDOUBLE,"W2",&(w->w2),NULL,status);
+  if(*status) // maybe used old format
+    *status=status_pre;
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
-- 
2.43.0


From e13e92486a7477143c78fd5f39f6e7a19efd955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 07/63] fix: write every member of every band to workspace
 files

The table had one row per multipole, so bands that overlap lost members and were
renormalised when read back.
---
 src/nmt_io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index e36202c..5e40dd7 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -205,24 +205,24 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      int *status)
 {
   int ii;
-  int nrows=b->ell_max+1;
+  int nrows=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
-  flouble *weights=my_calloc(nrows,sizeof(flouble));
-  flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
+  flouble *weights=my_malloc(nrows*sizeof(flouble));
+  flouble *f_ell=my_malloc(nrows*sizeof(flouble));
 
+  // One row per member of each band (bands may share multipoles)
+  int irow=0;
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      ells[irow]=b->ell_list[ii][jj];
+      bpws[irow]=ii;
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From 2d77974ec888f8c3d30df0176adff72e8c6e45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 08/63] fix: keep a workspace when recomputing or rereading it
 fails

The old contents were freed before the new ones were known to be valid.
---
 pymaster/workspaces.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 7c498c6..b2d647d 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -157,10 +157,10 @@ class NmtWorkspace(object):
                 mode-coupling matrix will not be read. This can save
                 significant IO time.
         """
+        wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         if self.wsp is not None:
             lib.workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
+        self.wsp = wsp
         self.has_unbinned = read_unbinned_MCM
 
     def update_beams(self, beam1, beam2):
@@ -244,9 +244,6 @@ class NmtWorkspace(object):
             raise ValueError(f"Maximum multipoles in bins ({bins.lmax}) "
                              f"and fields ({fl1.ainfo.lmax}) "
                              "are not the same.")
-        if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
 
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
         if anisotropic_mask_any and (l_toeplitz >= 0):
@@ -312,7 +309,7 @@ class NmtWorkspace(object):
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
         if anisotropic_mask_any:
-            self.wsp = lib.comp_coupling_matrix_anisotropic(
+            wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.anisotropic_mask), int(fl2.anisotropic_mask),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
@@ -321,7 +318,7 @@ class NmtWorkspace(object):
                 fl1.beam, fl2.beam, bins.bin,
                 int(norm_type), wawb)
         else:
-            self.wsp = lib.comp_coupling_matrix(
+            wsp = lib.comp_coupling_matrix(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 int(fl1.pure_e), int(fl1.pure_b),
@@ -329,6 +326,9 @@ class NmtWorkspace(object):
                 int(norm_type), wawb,
                 fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
+        if self.wsp is not None:
+            lib.workspace_free(self.wsp)
+        self.wsp = wsp
         self.has_unbinned = True
 
     def write_to(self, fname):
@@ -519,10 +519,10 @@ class NmtWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_workspace_flat(fname)
         if self.wsp is not None:
             lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_matrix(self, fl1, fl2, bins, ell_cut_x=[1., -1.],
                                 ell_cut_y=[1., -1.], is_teb=False):
@@ -547,11 +547,7 @@ class NmtWorkspaceFlat(object):
                 case, ``fl1`` must be a spin-0 field and ``fl2`` must be
                 spin-s.
         """
-        if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-
-        self.wsp = lib.comp_coupling_matrix_flat(
+        wsp = lib.comp_coupling_matrix_flat(
             fl1.fl,
             fl2.fl,
             bins.bin,
@@ -561,6 +557,9 @@ class NmtWorkspaceFlat(object):
             ell_cut_y[1],
             int(is_teb),
         )
+        if self.wsp is not None:
+            lib.workspace_flat_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtWorkspaceFlat` object
-- 
2.43.0


From 140ea3749360a54f1880f9f2a0564cc8bca6168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 09/63] fix: keep a covariance workspace when recomputing or
 rereading it fails

---
 pymaster/covariance.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..4f7913d 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -155,11 +155,10 @@ class NmtCovarianceWorkspace(object):
                 combinations of the mode-coupling coefficients will
                 be read and stored.
         """
+        wsp = lib.read_covar_workspace(fname, int(force_spin0_only))
         if self.wsp is not None:
             lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace(fname,
-                                            int(force_spin0_only))
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2,
                                       flb1=None, flb2=None, *,
@@ -220,10 +219,6 @@ class NmtCovarianceWorkspace(object):
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             fla1.ainfo.lmax, fla1, flb1)
 
-        if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-
         def get_mask_prod_cl(f1_p1, f2_p1, f1_p2, f2_p2):
             mask_p1 = f1_p1.get_mask()*f2_p1.get_mask()
             alm_p1 = ut.map2alm(np.array([mask_p1]), 0,
@@ -237,12 +232,15 @@ class NmtCovarianceWorkspace(object):
 
         pcl_mask_11_22 = get_mask_prod_cl(fla1, flb1, fla2, flb2)
         pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, fla2, flb1)
-        self.wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
-                                               pcl_mask_12_21,
-                                               int(fla1.ainfo.lmax),
-                                               int(fla1.ainfo_mask.lmax),
-                                               l_toeplitz, l_exact, dl_band,
-                                               int(spin0_only))
+        wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
+                                          pcl_mask_12_21,
+                                          int(fla1.ainfo.lmax),
+                                          int(fla1.ainfo_mask.lmax),
+                                          l_toeplitz, l_exact, dl_band,
+                                          int(spin0_only))
+        if self.wsp is not None:
+            lib.covar_workspace_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspace`
@@ -281,10 +279,10 @@ class NmtCovarianceWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_covar_workspace_flat(fname)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2, bin_a,
                                       flb1=None, flb2=None, bin_b=None):
@@ -330,13 +328,11 @@ class NmtCovarianceWorkspaceFlat(object):
            (fla1.fl.fs.ny != flb2.fl.fs.ny):
             raise ValueError("Everything should have the same resolution!")
 
+        wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl, bin_a.bin,
+                                               flb1.fl, flb2.fl, bin_b.bin)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
-                                                    bin_a.bin,
-                                                    flb1.fl, flb2.fl,
-                                                    bin_b.bin)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspaceFlat` object
-- 
2.43.0


From 0e7eaa078bb4d3f1bd0dee1a606b9d532c9ed4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 10/63] fix: do not overrun the error-message buffer

Reporting a file name of more than about 230 characters overflowed the stack.
---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From aa246fe9e245c568428a78dc0ef36b44f464361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 11/63] fix: report GSL errors instead of aborting the process

E.g. decoupling with a singular binned coupling matrix (a band below the spin)
called GSL's default handler, which aborts Python.
---
 src/utils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 5971ad5..708e57f 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -7,9 +7,16 @@ int nmt_exception_status;
 int nmt_error_policy=EXIT_ON_ERROR;
 char nmt_error_message[256]="No error\n";
 
+// Reports errors found by GSL (e.g. a singular matrix) like any other error
+static void gsl_error_to_report(const char *reason,const char *file,int line,int gsl_errno)
+{
+  report_error(NMT_ERROR_VALUE,"GSL error %d: %s\n",gsl_errno,reason);
+}
+
 void set_error_policy(int i)
 {
   nmt_error_policy=i;
+  gsl_set_error_handler(&gsl_error_to_report);
 }
 
 void report_error(int level,char *fmt,...)
-- 
2.43.0


From 7a30fc7508f33d2133f75005aa2ca383a94ea3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 12/63] fix: accept fields with beams longer than lmax+1

They are documented to need at least lmax+1 elements, but the coupling matrix
refused longer ones.
---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index b2d647d..d7583c9 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -308,6 +308,10 @@ class NmtWorkspace(object):
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
+        # Beams may extend beyond the multipoles used here
+        beam1 = np.array(fl1.beam)[:fl1.ainfo.lmax+1]
+        beam2 = np.array(fl2.beam)[:fl1.ainfo.lmax+1]
+
         if anisotropic_mask_any:
             wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
@@ -315,7 +319,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             wsp = lib.comp_coupling_matrix(
@@ -324,7 +328,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         if self.wsp is not None:
             lib.workspace_free(self.wsp)
-- 
2.43.0


From 7b56e1468d57a2cad58670ba613854eb88bd100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 13/63] fix: table of log-factorials was too short for the
 largest multipoles

drc3jj_000 needs it up to 2*(l2+l3)+1 and read beyond its end.
---
 src/nmt_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 1c9832f..21649a8 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -746,11 +746,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  c->lfac = my_malloc(4*(lmax_max+1)*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<4*(lmax_max+1);ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From 5d66408f167079abcfe30bd4e71cb842a0c79e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 14/63] fix: flat-sky fields with beams sampled at different
 multipoles crashed

Both beams were interpolated with the same accelerator, which caches the position
in the array of sampling points.
---
 src/nmt_master_flat.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..4bc53ba 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -168,7 +168,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
     flouble dky=2*M_PI/fs->ly;
     int iy1,ix1;
     int *n_cells_thr=my_calloc(w->bin->n_bands,sizeof(int));
-    gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam1=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam2=gsl_interp_accel_alloc();
 
 #pragma omp for
     for(iy1=0;iy1<fs->ny;iy1++) {
@@ -196,8 +197,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
 
 	kmod=sqrt(kx*kx+ky*ky);
-	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam);
-	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam);	
+	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam1);
+	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam2);
 	kmodarr[index]=kmod;
 	beamprod[index]=beam1*beam2;
 	ik=nmt_bins_flat_search_fast(w->bin,kmod,ik);
@@ -265,7 +266,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	w->n_cells[iy1]+=n_cells_thr[iy1];
     } //end omp critical
     free(n_cells_thr);
-    gsl_interp_accel_free(intacc_beam);
+    gsl_interp_accel_free(intacc_beam1);
+    gsl_interp_accel_free(intacc_beam2);
   } //end omp parallel
   free(x_out_range);
   free(y_out_range);
-- 
2.43.0


From 8231b4470b10184f9839e465836383c96a19a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 15/63] fix: flat-sky workspace files lost precision

The pixelisation was stored with 15 digits, so that modes on the edge of a ring
moved to another ring when couple_cell was called after reading the file.
---
 src/nmt_io.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 5e40dd7..59cb05e 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -398,6 +398,12 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   return w;
 }
 
+//Writes a floating point keyword without losing precision
+static void write_key_full(fitsfile *fptr,char *name,double value,int *status)
+{
+  fits_write_key_dbl(fptr,name,value,-17,NULL,status);
+}
+
 static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
 					   nmt_workspace_flat *w,
 					   int *status)
@@ -409,11 +415,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  write_key_full(fptr,"LMAX",w->lmax,status);
+  write_key_full(fptr,"ELLCUT_X_I",w->ellcut_x[0],status);
+  write_key_full(fptr,"ELLCUT_X_F",w->ellcut_x[1],status);
+  write_key_full(fptr,"ELLCUT_Y_I",w->ellcut_y[0],status);
+  write_key_full(fptr,"ELLCUT_Y_F",w->ellcut_y[1],status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -473,11 +479,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  write_key_full(fptr,"LX",fs->lx,status);
+  write_key_full(fptr,"LY",fs->ly,status);
+  write_key_full(fptr,"PIXSIZE",fs->pixsize,status);
+  write_key_full(fptr,"DELL",fs->dell,status);
+  write_key_full(fptr,"I_DELL",fs->i_dell,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From 33b6f968260ad65d05064d4abd8cf4b5d0dfdb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 16/63] fix: reading a file without the expected contents used
 uninitialised sizes

Files of another kind, or cut short, made the process crash. The sizes are now checked
before they are used. Also, the fallback to the old format of the bands never worked,
because it kept the status of the failed attempt.
---
 src/nmt_io.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 59cb05e..6d51caf 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -2,6 +2,13 @@
 #include "utils.h"
 #include <fitsio.h>
 
+//Stops if the information needed to read an HDU could not be found
+static void check_hdu(int status,char *name)
+{
+  if(status)
+    report_error(NMT_ERROR_READ,"Error reading %s from file\n",name);
+}
+
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
 				      nmt_workspace *w,
 				      int *status)
@@ -37,6 +44,7 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"LMAX_MASK",&(w->lmax_mask),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
+  check_hdu(*status,"WSP_PRIMARY");
   status_pre = *status;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
   if(*status) {// maybe used old format
@@ -104,9 +112,9 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   double nulval;
   int anynul;
   long nrows;
-  *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  check_hdu(*status,arrname);
   if(nrows!=lmax_expect+1) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
@@ -130,6 +138,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -166,6 +176,7 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  check_hdu(*status,"BINS_SUMMARY");
   if(nrows!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
@@ -182,6 +193,7 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
+    check_hdu(*status,hduname);
     if(nrows!=b->nell_list[ii]) {
       report_error(NMT_ERROR_INCONSISTENT,
 		   "Number of rows doesn't match number of ells\n");
@@ -387,8 +399,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
+  if(status) { // maybe used old format
+    status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+  }
   check_fits(status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
@@ -451,6 +465,7 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
+  check_hdu(*status,"WSP_PRIMARY");
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -509,6 +524,7 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  check_hdu(*status,"FS_INFO");
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -547,6 +563,7 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  check_hdu(*status,"N_CELLS");
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -607,6 +624,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  check_hdu(*status,"MCM_BINNED");
   n_el=naxes[0];
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
@@ -620,6 +638,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  check_hdu(*status,"MCM_BINNED_GSL");
   if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Inconsistent size for GSL binned MCM\n");
@@ -687,6 +706,7 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  check_hdu(*status,"BINS_SUMMARY");
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -776,6 +796,7 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  check_hdu(*status,name);
   n_el=naxes[0];
   if(n_el!=n_expected)
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
-- 
2.43.0


From a581a9f3cf55883322f794b575cbed90285a08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 17/63] fix: covariance of coupled pseudo-Cls returned
 uninitialised memory

Only multipoles belonging to some band were filled. The pseudo-Cls are not binned, so
all multipoles are now computed, and none is scaled by the bands' f_ell.
---
 src/nmt_covar.c | 81 ++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 45 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 5b931d1..152f78c 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -113,12 +113,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   shared(wa,wb,clac,clad,clbc,clbd)			\
   shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)
   {
-    int band_a;
+    int la;
 
 #pragma omp for
-    for(band_a=0;band_a<wa->bin->n_bands;band_a++) {
-      int band_b;
-      for(band_b=0;band_b<wb->bin->n_bands;band_b++) {
+    for(la=0;la<=cw->lmax;la++) {
+      int lb;
+      for(lb=0;lb<=cw->lmax;lb++) {
 	int ia;
 	for(ia=0;ia<nmaps_a;ia++) {
 	  int ib;
@@ -128,52 +128,43 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 	    for(ic=0;ic<nmaps_c;ic++) {
 	      int id;
 	      for(id=0;id<nmaps_d;id++) {
-		int ila;
 		int icl_b=id+nmaps_d*ic;
-		for(ila=0;ila<wa->bin->nell_list[band_a];ila++) {
-		  int ilb;
-		  int la=wa->bin->ell_list[band_a][ila];
-		  for(ilb=0;ilb<wb->bin->nell_list[band_b];ilb++) {
-		    int iap;
-		    int lb=wb->bin->ell_list[band_b][ilb];
-		    double xis_1122[6]={cw->xi00_1122[la][lb],
-                                        cw->xi02_1122[la][lb],
-                                        cw->xi22p_1122[la][lb],
-					cw->xi22m_1122[la][lb],
-                                        -cw->xi22m_1122[la][lb],0};
-		    double xis_1221[6]={cw->xi00_1221[la][lb],
-                                        cw->xi02_1221[la][lb],
-                                        cw->xi22p_1221[la][lb],
-					cw->xi22m_1221[la][lb],
-                                        -cw->xi22m_1221[la][lb],0};
-		    double prefac_ell=wa->bin->f_ell[band_a][ila]*wb->bin->f_ell[band_b][ilb];
-                    double cov_element=0;
-		    for(iap=0;iap<nmaps_a;iap++) {
-		      int ibp;
-		      for(ibp=0;ibp<nmaps_b;ibp++) {
-			int icp;
-			for(icp=0;icp<nmaps_c;icp++) {
-			  int idp;
-			  for(idp=0;idp<nmaps_d;idp++) {
-			    double *cl_ac=clac[icp+nmaps_c*iap];
-			    double *cl_ad=clad[idp+nmaps_d*iap];
-			    double *cl_bc=clbc[icp+nmaps_c*ibp];
-			    double *cl_bd=clbd[idp+nmaps_d*ibp];
-			    double fac_1122=0.5*(cl_ac[la]*cl_bd[lb]+cl_ac[lb]*cl_bd[la]);
-			    double fac_1221=0.5*(cl_ad[la]*cl_bc[lb]+cl_ad[lb]*cl_bc[la]);
-			    int ind_1122=cov_get_coupling_pair_index(nmaps_a,nmaps_c,nmaps_b,nmaps_d,
-								     ia,iap,ic,icp,ib,ibp,id,idp);
-			    int ind_1221=cov_get_coupling_pair_index(nmaps_a,nmaps_d,nmaps_b,nmaps_c,
-								     ia,iap,id,idp,ib,ibp,ic,icp);
-			    
-                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221)*prefac_ell;
-			  }
-			}
+		int iap;
+		double xis_1122[6]={cw->xi00_1122[la][lb],
+				    cw->xi02_1122[la][lb],
+				    cw->xi22p_1122[la][lb],
+				    cw->xi22m_1122[la][lb],
+				    -cw->xi22m_1122[la][lb],0};
+		double xis_1221[6]={cw->xi00_1221[la][lb],
+				    cw->xi02_1221[la][lb],
+				    cw->xi22p_1221[la][lb],
+				    cw->xi22m_1221[la][lb],
+				    -cw->xi22m_1221[la][lb],0};
+		double cov_element=0;
+		for(iap=0;iap<nmaps_a;iap++) {
+		  int ibp;
+		  for(ibp=0;ibp<nmaps_b;ibp++) {
+		    int icp;
+		    for(icp=0;icp<nmaps_c;icp++) {
+		      int idp;
+		      for(idp=0;idp<nmaps_d;idp++) {
+			double *cl_ac=clac[icp+nmaps_c*iap];
+			double *cl_ad=clad[idp+nmaps_d*iap];
+			double *cl_bc=clbc[icp+nmaps_c*ibp];
+			double *cl_bd=clbd[idp+nmaps_d*ibp];
+			double fac_1122=0.5*(cl_ac[la]*cl_bd[lb]+cl_ac[lb]*cl_bd[la]);
+			double fac_1221=0.5*(cl_ad[la]*cl_bc[lb]+cl_ad[lb]*cl_bc[la]);
+			int ind_1122=cov_get_coupling_pair_index(nmaps_a,nmaps_c,nmaps_b,nmaps_d,
+								 ia,iap,ic,icp,ib,ibp,id,idp);
+			int ind_1221=cov_get_coupling_pair_index(nmaps_a,nmaps_d,nmaps_b,nmaps_c,
+								 ia,iap,id,idp,ib,ibp,ic,icp);
+
+			cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221);
 		      }
 		    }
-                    covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
 		  }
 		}
+		covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
 	      }
 	    }
 	  }
-- 
2.43.0


From ee26fd65313a13f3b3f99dbafc9366699b7e1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 18/63] fix: compute_full_master_flat failed with a single band

The null guess spectrum used in the absence of one was sampled at the centres of the
bands, and a single point cannot be interpolated.
---
 pymaster/workspaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index d7583c9..d49b4a8 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1137,8 +1137,8 @@ def compute_full_master_flat(f1, f2, b, cl_noise=None, cl_guess=None,
         lf = ells_guess.copy()
         clg = cl_guess.copy()
     else:
-        lf = b.get_effective_ells()
-        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, b.bin.n_bands])
+        lf = np.array([0., b.get_effective_ells()[-1]])
+        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, len(lf)])
 
     if workspace is None:
         cl1d = lib.comp_pspec_flat(
-- 
2.43.0


From c3dfbc15ce209a70b7e68ba885025bc1ef215578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 19/63] fix: purification with lmax different from lmax_mask

The purified multipoles were computed up to lmax_mask, which failed unless it was the
same as lmax.
---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..35bf93b 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,11 +472,11 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls = np.arange(max(self.ainfo.lmax, self.ainfo_mask.lmax)+1)
         # The minus sign is because of the definition of E-modes
         fl = -np.sqrt((ls+1.0)*ls)
         walm = hp.almxfl(alm_mask, fl,
-- 
2.43.0


From 337efb144a587a3b51ae18897329884dddf22853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 20/63] fix: coupling of a purified second field with a first
 field of another spin

The purified coefficient was built from that of the first field's spin.
---
 src/nmt_master.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 21649a8..38b79d5 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -891,9 +891,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
                 if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                  //Only spin-2 fields can be pure, and both if they are the same spin
+                  int pure_first=c->pure_e1 || c->pure_b1;
+                  wfac_ispure[1]=(pure_first ? wss1 : wss2)+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=(pure_first ? wss2 : wss1)*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From beb445b4e8bd176b7b2f17472afdd2fb7635ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 21/63] fix: default lmax of rectangular maps was short by one
 after rounding

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..d73bca7 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -433,7 +433,8 @@ class NmtMapInfo(object):
             return 3*self.nside-1
         else:
             dxmin = min(self.d_theta, self.d_phi)
-            return int(np.pi/dxmin)
+            # Avoid losing one multipole to rounding errors
+            return int(np.pi/dxmin+1E-6)
 
 
 class NmtAlmInfo(object):
-- 
2.43.0


From cfeae1d0df95a0fa0e563788691bb6dc3fbf327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 22/63] fix: Toeplitz approximation replaced exact elements
 when dl_band reaches lmax-l_toeplitz

---
 src/nmt_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 38b79d5..8fbaab4 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -942,6 +942,8 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         flouble m;
 	int is_den_zero;
         int lx=l_exact+l2-l3;
+        if((l3<=l_toeplitz) && (l2-l3<=dl_band)) //Already computed exactly
+          continue;
         for(ic=0;ic<c->npcl;ic++) {
           if(c->has_00) {
             mat = c->xi_00[ic];
-- 
2.43.0


From 01c2e9ac7215b46b109b61af1ebd48275c1dc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 23/63] fix: the 0B and E0 mask spectra of anisotropic masks
 were swapped

---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..4ae7877 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -745,8 +745,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index 8fbaab4..7826a25 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -423,8 +423,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From b7d338fa3e27edcbec195c4a3cd9a0e4db9af5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 24/63] fix: wrong sign of the coupling of anisotropically
 masked fields if one spin is odd

---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 7826a25..a351a4e 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -478,10 +478,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 84a36f79146bc960d0719d0d8fe268f992be34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 25/63] fix: is_teb was silently ignored for anisotropic masks

---
 pymaster/workspaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index d49b4a8..a154632 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -249,6 +249,9 @@ class NmtWorkspace(object):
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
                                       "implemented for anisotropic masks.")
+        if anisotropic_mask_any and is_teb:
+            raise NotImplementedError("The joint T-E-B coupling matrix is not "
+                                      "implemented for anisotropic masks.")
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             bins.bin.ell_max, fl1, fl2)
 
-- 
2.43.0


From 64b572703938a8cdcb53a3a1ea6d298c1b0591ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 26/63] fix: mask-only fields accepted unsupported purification

---
 pymaster/field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 35bf93b..41e0d8e 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -209,6 +209,13 @@ class NmtField(object):
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
                                  "with scalar fields.")
+            if self.pure_e or self.pure_b:
+                if self.spin != 2:
+                    raise ValueError("Purification only implemented for "
+                                     "spin-2 fields")
+                if self.anisotropic_mask:
+                    raise NotImplementedError("Purification not implemented "
+                                              "for anisotropic masks")
             self.nmaps = 2 if spin else 1
             return
 
-- 
2.43.0


From 111d7e59650e0c5fb2c4401eadfe6263b3315c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 27/63] fix: templates that vanish within the mask turned
 fields into NaNs

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index d73bca7..b26f96b 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -794,7 +794,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    goodw = (w >= tol_pinv*np.max(w)) & (w > 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
-- 
2.43.0


From 2a7969fcdc80d61e345dc7459b0ce0aebccb4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 28/63] fix: equal rectangular pixelizations with different
 reference pixels were told apart by rounding errors

---
 pymaster/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b26f96b..be74ec2 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -378,13 +378,19 @@ class NmtMapInfo(object):
         # If CAR
         if other.is_healpix:
             return False
-        for att in ['npix', 'nx', 'ny', 'theta_min',
-                    'theta_max', 'phi0', 'd_theta', 'd_phi']:
-            a_this = getattr(self, att, None)
-            a_other = getattr(other, att, None)
-            if a_this != a_other:
+        for att in ['npix', 'nx', 'ny']:
+            if getattr(self, att) != getattr(other, att):
                 return False
-        return True
+        # Angles are the same up to rounding errors (in units of the
+        # pixel size), and azimuths also up to full turns.
+        tol = 1E-6
+        for att, dx in [('d_theta', self.d_theta), ('d_phi', self.d_phi),
+                        ('theta_min', self.d_theta),
+                        ('theta_max', self.d_theta)]:
+            if np.fabs(getattr(self, att)-getattr(other, att)) > tol*dx:
+                return False
+        dphi0 = (self.phi0-other.phi0+np.pi) % (2*np.pi)-np.pi
+        return bool(np.fabs(dphi0) <= tol*self.d_phi)
 
     def reform_map(self, maps):
         """ Modifies a map to make it compatible with the
-- 
2.43.0


From 0613d4204a92a8175854393c63c364e3d9f4d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 29/63] fix: fields kept a reference to the caller's beam array

---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 41e0d8e..0cb1712 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -942,7 +942,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From 94057f146d1f557f8f28e1459508e6484f627e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 30/63] fix: variance maps in rectangular pixelizations were
 not reordered as the field's maps

---
 pymaster/workspaces.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index a154632..6ca3447 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -818,8 +818,11 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if n_iter is None:
         n_iter = ut.nmt_params.n_iter_default
 
-    # Flatten in case it's a 2D map
-    sig2 = map_var.flatten()
+    # Flatten (and reorder if needed) in case it's a 2D map
+    sig2 = map_var
+    if (not f1.minfo.is_healpix) and (map_var.ndim > 1):
+        sig2 = f1.minfo.reform_map(map_var)
+    sig2 = sig2.flatten()
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
 
-- 
2.43.0


From 1459a3655b97871289d6541c57b6993402d2ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 31/63] fix: noise deprojection bias of spin fields missed one
 ordering of the templates and ignored purification

---
 pymaster/workspaces.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 6ca3447..1a9b838 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -840,14 +840,21 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
         # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        fj_s = fj*(f1.mask*sig2)[None, :]
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(), fj_s,
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj_s*f1.mask[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
                            for a2 in fj_v_s])
-            pcl_ff[i, j, :, :, :] = cl
-    clb -= 2*np.einsum('ij,ijklm', f1.iM, pcl_ff)
+            # Both orderings: <f_i, f_j> and <f_j, f_i>
+            pcl_ff[i, j, :, :, :] = cl + np.transpose(cl, (1, 0, 2))
+    clb -= np.einsum('ij,ijklm', f1.iM, pcl_ff)
 
     # Second term in Eq. 39 of the namaster paper
     # PCL(fi, fs)
-- 
2.43.0


From b65899bcd92fc41fde89dae90c702908f2298a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 32/63] fix: flat-sky purification uses physical wave numbers
 (rectangular pixels)

---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From 934c83cb69e986301c3ad6951ab43db8d10754e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 33/63] fix: flat-sky spectra use the conjugate mode for
 negative kx

---
 src/flatsky_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..d6ea03a 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Only half of the modes are stored: (-kx,ky) is the conjugate of (kx,-ky)
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
-- 
2.43.0


From 18b94e79f88e8fe018a7f3cecdeaca4bbaf081d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 34/63] fix: pseudo-inverse of a vanishing matrix is zero, not
 NaN

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 708e57f..e3cc7c9 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -369,7 +369,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v<threshold*eval_max) || (eval_max<=0))
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From ead0de3fa758b978e0eda09fb5bd3a2cd5734295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 35/63] fix: flat-sky coupling matrices use the conjugate mask
 mode for negative kx

---
 src/nmt_master_flat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 4bc53ba..3b203f6 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -181,17 +181,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only half of the modes are stored: (-kx,ky) is the conjugate of (kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From cb1d5666536cc7c65bb14e51e1af96e0330e448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 36/63] fix: flat-sky estimator refuses workspaces of other
 numbers of spectra instead of overrunning them

---
 src/nmt_master_flat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3b203f6..54b68cb 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -931,6 +931,8 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
     if(bin->n_bands!=w->bin->n_bands)
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if((w->is_teb) || (w->ncls!=fl1->nmaps*fl2->nmaps))
+      report_error(NMT_ERROR_INCONSISTENT,"Input workspace has a different number of power spectra!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
-- 
2.43.0


From 03e91699ed19b9b7f2d2bfbe883b9bb97ce2ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 37/63] fix: covariance terms with two leakage kernels have the
 sign of their product

Cov(EE,BB) came out negative for every mask, although the covariance of two
auto-spectra of Gaussian fields never is.
---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index e3cc7c9..469442b 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -445,9 +445,9 @@ int cov_get_coupling_pair_index(int na,int nc,int nb,int nd,
     return IND_COV_PP;
   if(((ind1==IND_COV_MP) && (ind2==IND_COV_MP)) ||
      ((ind1==IND_COV_MM) && (ind2==IND_COV_MM)))
-    return IND_COV_MMM;
+    return IND_COV_MMP;
   if(((ind1==IND_COV_MP) && (ind2==IND_COV_MM)) ||
      ((ind1==IND_COV_MM) && (ind2==IND_COV_MP)))
-    return IND_COV_MMP;
+    return IND_COV_MMM;
   return IND_COV_ZERO;
 }
-- 
2.43.0


From f5429b26dfd870398fdeb1f7b43ade88a902cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 38/63] fix: one leakage kernel in a Gaussian covariance is
 half the one of the mask product

P[u] N[v] + N[u] P[v] = N[uv], so each of the two is half of it in the
narrow-kernel limit (exactly, for white spectra with EE=BB); terms with two
such factors, Cov(EE,BB) for example, were four times too large.
---
 src/nmt_covar.c      | 12 ++++++------
 src/nmt_covar_flat.c |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 152f78c..7199048 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -133,13 +133,13 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 		double xis_1122[6]={cw->xi00_1122[la][lb],
 				    cw->xi02_1122[la][lb],
 				    cw->xi22p_1122[la][lb],
-				    cw->xi22m_1122[la][lb],
-				    -cw->xi22m_1122[la][lb],0};
+				    0.25*cw->xi22m_1122[la][lb],
+				    -0.25*cw->xi22m_1122[la][lb],0};
 		double xis_1221[6]={cw->xi00_1221[la][lb],
 				    cw->xi02_1221[la][lb],
 				    cw->xi22p_1221[la][lb],
-				    cw->xi22m_1221[la][lb],
-				    -cw->xi22m_1221[la][lb],0};
+				    0.25*cw->xi22m_1221[la][lb],
+				    -0.25*cw->xi22m_1221[la][lb],0};
 		double cov_element=0;
 		for(iap=0;iap<nmaps_a;iap++) {
 		  int ibp;
@@ -226,9 +226,9 @@ void  nmt_compute_gaussian_covariance(nmt_covar_workspace *cw,
 		    int iap;
 		    int lb=wb->bin->ell_list[band_b][ilb];
 		    double xis_1122[6]={cw->xi00_1122[la][lb],cw->xi02_1122[la][lb],cw->xi22p_1122[la][lb],
-					cw->xi22m_1122[la][lb],-cw->xi22m_1122[la][lb],0};
+					0.25*cw->xi22m_1122[la][lb],-0.25*cw->xi22m_1122[la][lb],0};
 		    double xis_1221[6]={cw->xi00_1221[la][lb],cw->xi02_1221[la][lb],cw->xi22p_1221[la][lb],
-					cw->xi22m_1221[la][lb],-cw->xi22m_1221[la][lb],0};
+					0.25*cw->xi22m_1221[la][lb],-0.25*cw->xi22m_1221[la][lb],0};
 		    double prefac_ell=wa->bin->w_list[band_a][ila]*wa->bin->f_ell[band_a][ila]*
 		      wb->bin->w_list[band_b][ilb]*wb->bin->f_ell[band_b][ilb];
 		    for(iap=0;iap<nmaps_a;iap++) {
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..de4ab3b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -364,11 +364,11 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
       for(band_b=0;band_b<cw->bin->n_bands;band_b++) {
 	int ia;
 	double xis_1122[6]={cw->xi00_1122[band_a][band_b],cw->xi02_1122[band_a][band_b],
-			    cw->xi22p_1122[band_a][band_b],cw->xi22m_1122[band_a][band_b],
-			    -cw->xi22m_1122[band_a][band_b],0};
+			    cw->xi22p_1122[band_a][band_b],0.25*cw->xi22m_1122[band_a][band_b],
+			    -0.25*cw->xi22m_1122[band_a][band_b],0};
 	double xis_1221[6]={cw->xi00_1221[band_a][band_b],cw->xi02_1221[band_a][band_b],
-			    cw->xi22p_1221[band_a][band_b],cw->xi22m_1221[band_a][band_b],
-			    -cw->xi22m_1221[band_a][band_b],0};
+			    cw->xi22p_1221[band_a][band_b],0.25*cw->xi22m_1221[band_a][band_b],
+			    -0.25*cw->xi22m_1221[band_a][band_b],0};
 	for(ia=0;ia<nmaps_a;ia++) {
 	  int ib;
 	  for(ib=0;ib<nmaps_b;ib++) {
-- 
2.43.0


From 3ad01c279076552a742ec5fda9fd61f9a2763ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 39/63] fix: flat-sky covariances use the conjugate mask mode
 for negative kx

---
 src/nmt_covar_flat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index de4ab3b..d5b2d07 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -98,17 +98,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only half of the modes are stored: (-kx,ky) is the conjugate of (kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
-- 
2.43.0


From feb8f61a2eb3ffc4e17d322dfa4b04af36aec796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 40/63] fix: flat-sky covariances of bands with more than 46340
 modes overflowed

---
 src/nmt_covar_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index d5b2d07..4d54d6b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -261,8 +261,8 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
       int ib2;
       for(ib2=0;ib2<cw->bin->n_bands;ib2++) {
 	flouble norm;
-	if(n_cells[ib1]*n_cells[ib2]>0)
-	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);
+	if((n_cells[ib1]>0) && (n_cells[ib2]>0))
+	  norm=fac_norm/((double)(n_cells[ib1])*n_cells[ib2]);
 	else
 	  norm=0;
 	cw->xi00_1122[ib1][ib2]*=norm;
-- 
2.43.0


From be3aeb8e1f5e81a100de34ef1763a2b7d6a8d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 41/63] fix: refuse flat-sky covariances of patches of
 different sizes

---
 src/nmt_covar_flat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 4d54d6b..c067109 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -33,7 +33,10 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   
   if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny) ||
+     (fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
   if(ba->n_bands!=bb->n_bands)
-- 
2.43.0


From dc3c70312a4b25e38327f34f0667f0d263b13fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 42/63] fix: refuse flat-sky covariances mixing bands with
 different edges

---
 src/nmt_covar_flat.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index c067109..3c939a9 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -24,6 +24,19 @@ static nmt_binning_scheme_flat *nmt_bins_copy(nmt_binning_scheme_flat *b_or)
   return b;
 }
 
+//Do both schemes have the same bandpowers?
+static int nmt_bins_equal(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2)
+{
+  int ii;
+  if(b1->n_bands!=b2->n_bands)
+    return 0;
+  for(ii=0;ii<b1->n_bands;ii++) {
+    if((b1->ell_0_list[ii]!=b2->ell_0_list[ii]) || (b1->ell_f_list[ii]!=b2->ell_f_list[ii]))
+      return 0;
+  }
+  return 1;
+}
+
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt_field_flat *fla2,
 							nmt_binning_scheme_flat *ba,
 							nmt_field_flat *flb1,nmt_field_flat *flb2,
@@ -39,7 +52,7 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
      (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
-  if(ba->n_bands!=bb->n_bands)
+  if(!nmt_bins_equal(ba,bb))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
@@ -324,7 +337,7 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 					  flouble **clac,flouble **clad,
 					  flouble **clbc,flouble **clbd,flouble *covar_out)
 {
-  if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
+  if(!nmt_bins_equal(wa->bin,cw->bin) || !nmt_bins_equal(wb->bin,cw->bin))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
 
   int nmaps_a=spin_a ? 2 : 1;
-- 
2.43.0


From 9c16022aa727eb66c11cb5199da20f58ac0649c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:13 +0000
Subject: [PATCH 43/63] fix: flat-sky apodization used the pixel width as the
 pixel height

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From dc5036e4887a4cbca66a2947f94f35016315293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 44/63] fix: apodization of scales close to the pixel size, or
 wider than the sky, failed for want of memory

---
 src/nmt_mask.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..c8dba7e 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -1,6 +1,16 @@
 #include "config.h"
 #include "utils.h"
 
+//Size of the buffers he_query_disc needs for inclusive discs of this radius.
+//lenlist0: size estimated without the pixels on the edge.
+static int get_list_size(long nside,double radius,int lenlist0)
+{
+  double radius_eff=radius+1.071*M_PI/(4*((flouble)nside));
+  int lenlist=(int)(48*((double)(nside*nside))*(radius_eff<M_PI ? 1-cos(radius_eff) : 2));
+
+  return lenlist>lenlist0 ? lenlist : lenlist0;
+}
+
 static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
   long npix=he_nside2npix(nside);
@@ -40,10 +50,12 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
   int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  double radius=1.2*aporad<M_PI ? 1.2*aporad : M_PI;
+  lenlist0=get_list_size(nside,radius,lenlist0);
   
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
-  shared(nside,cthv,phiv,aporad,apotyp,lenlist0)
+  shared(nside,cthv,phiv,radius,apotyp,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -55,7 +67,7 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
 	int lenlist_half=lenlist0/2;
 	flouble *v0=vec+3*ip;
 	flouble x2dist=1000;
-	he_query_disc(nside,cthv[ip],phiv[ip],1.2*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv[ip],phiv[ip],radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 	  if(mask_in[ip2]<=0) {
@@ -96,9 +108,11 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
   if(lenlist0 < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  double radius=2.5*aporad<M_PI ? 2.5*aporad : M_PI;
+  lenlist0=get_list_size(nside,radius,lenlist0);
 
 #pragma omp parallel default(none)                      \
-  shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
+  shared(npix,mask_in,mask_out,nside,radius,lenlist0)
   {
     long ip;
     int *listpix=my_malloc(lenlist0*sizeof(int));
@@ -114,7 +128,7 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
 	phiv=atan2(v[1],v[0]);
 	if(phiv<0)
 	  phiv+=2*M_PI;
-	he_query_disc(nside,cthv,phiv,2.5*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv,phiv,radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 #pragma omp atomic
-- 
2.43.0


From c94ed42c02ef87f56218d0fa7418135be96250c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 45/63] fix: discs missed pixels of rings almost entirely
 inside them

---
 src/healpix_extra.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..2c796cc 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -325,6 +325,10 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     kshift=1;
   }
 
+  //The two ends of almost a full turn may round to the same pixel
+  if(conservative && (dphi*nr>=M_PI*(nr-1)))
+    take_all=1;
+
   //Constructs the pixel list
   if(take_all) {
     *nir=ipix2-ipix1+1;
-- 
2.43.0


From 52898b6582c6382bfb75cff233108c3b7437f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 46/63] fix: inclusive discs covering the sky missed pixels
 around the antipode

---
 src/healpix_extra.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index 2c796cc..5f0c99d 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -421,6 +421,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI)
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
-- 
2.43.0


From 40d191a89856410eeec79cadc3238835580de0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 47/63] fix: synfast_spherical ignored its seed

---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index be74ec2..eea9035 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -657,7 +657,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # healpy draws from numpy's global generator: seed it for this call only.
+    state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From d9b7eea1ebafa03b7865124a4fa0fc7ad048bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 48/63] fix: flat-sky simulations with the same seed depended
 on the number and scheduling of threads

---
 src/flatsky_utils.c | 48 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index d6ea03a..b5f1918 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -483,19 +483,22 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //White noise, drawn in order so that it depends only on the seed
+  //(and not on the number of threads or on how they are scheduled)
+  long imode;
+  gsl_rng *rng=init_rng((unsigned int)seed);
+  for(imode=0;imode<nmodes;imode++) {
+    for(imap=0;imap<nmaps;imap++) {
+      double dr,di;
+      rng_gauss(rng,&dr,&di);
+      alms[imap][imode]=(fcomplex)(dr+I*di);
+    }
+  }
+  end_rng(rng);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -507,8 +510,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -525,6 +526,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	flouble kx=ix*dkx;
 	long index=ix+((long)(nx/2+1))*iy;
 	flouble kmod=sqrt(kx*kx+ky*ky);
+	if((ix==0) && (iy>ny/2)) //Conjugate of a mode done elsewhere
+	  continue;
 	if(kmod<0) {
 	  for(imp1=0;imp1<nmaps;imp1++)
 	    alms[imp1][index]=0;
@@ -545,10 +548,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	  //Take square root
 	  gsl_eigen_symmv(clmat,eval,evec,wsym);
 	  for(imp1=0;imp1<nmaps;imp1++) {
-	    double dr,di; //At the same time get white random numbers
-	    rng_gauss(rng,&dr,&di);
-	    gsl_vector_set(rv1,imp1,dr);
-	    gsl_vector_set(iv1,imp1,di);
+	    gsl_vector_set(rv1,imp1,creal(alms[imp1][index]));
+	    gsl_vector_set(iv1,imp1,cimag(alms[imp1][index]));
 	    for(imp2=0;imp2<nmaps;imp2++) {
 	      double oij=gsl_matrix_get(evec,imp1,imp2);
 	      double lambda=gsl_vector_get(eval,imp2);
@@ -566,16 +567,12 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
 	    if(ix==0) {
-	      if(iy>ny/2)
-		continue;
+	      if(iy==0)
+		alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 	      else {
-		if(iy==0)
-		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
-		else {
-		  int iyy=ny-iy;
-		  alms[imp1][index]=(fcomplex)(a_re+I*a_im);
-		  alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
-		}
+		int iyy=ny-iy;
+		alms[imp1][index]=(fcomplex)(a_re+I*a_im);
+		alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
 	      }
 	    }
 	    else
@@ -592,7 +589,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector_free(eval);
     gsl_matrix_free(evec);
     gsl_eigen_symmv_free(wsym);
-    end_rng(rng);
     gsl_interp_accel_free(intacc_cells);
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
-- 
2.43.0


From dfe4afa0c5b016fb091afeaece86cb87501053ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:23 +0000
Subject: [PATCH 49/63] fix: the pseudo-inverse of a complex Hermitian matrix
 used the transposed eigenvectors, not their conjugates

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index eea9035..c637a4c 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -809,7 +809,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
     goodw = (w >= tol_pinv*np.max(w)) & (w > 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
-    pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
+    pinv = np.dot(v, np.dot(np.diag(w_inv), v.conj().T))
     return pinv
 
 
-- 
2.43.0


From 239d4d875167fdf5482b98149b2370c381929a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:30 +0000
Subject: [PATCH 50/63] fix: set_tol_pinv_default accepted NaN

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index c637a4c..7e504e0 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -113,7 +113,7 @@ def set_tol_pinv_default(tol_pinv):
     Args:
         tol_pinv (:obj:`float`): Relative eigenvalue threshold.
     """
-    if (tol_pinv > 1) or (tol_pinv < 0):
+    if not (0 <= tol_pinv <= 1):
         raise ValueError('tol_pinv must be between 0 and 1.')
     nmt_params.tol_pinv_default = tol_pinv
 
-- 
2.43.0


From d9da95ce402cdb30b227fd20e122653bb45629d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 51/63] fix: multipoles and weights of a bandpower index out of
 range read beyond the arrays

---
 pymaster/bins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 8dbaa4e..c0ae050 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -220,6 +220,10 @@ class NmtBin(object):
         """
         return np.amax(self.get_ell_list(b))
 
+    def _check_band(self, b):
+        if not (0 <= int(b) < self.bin.n_bands):
+            raise ValueError("Bandpower index %d out of range" % int(b))
+
     def get_ell_list(self, b):
         """ Returns an array with the multipoles in the
         ``b``-th bandpower
@@ -231,6 +235,7 @@ class NmtBin(object):
             (`array`): Array of multipoles associated with bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_ell_list(self.bin, int(b),
                                 lib.get_nell(self.bin, int(b)))
 
@@ -246,6 +251,7 @@ class NmtBin(object):
             (`array`): Weights associated to multipoles in bandpower
             ``b``.
         """
+        self._check_band(b)
         return lib.get_weight_list(self.bin, int(b),
                                    lib.get_nell(self.bin, int(b)))
 
-- 
2.43.0


From b2f2b527bd557fb03c6188fc95924c77a777ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 52/63] fix: negative multipoles in a bandpower were accepted
 and used as array indices

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c0ae050..7f922eb 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -54,6 +54,8 @@ class NmtBin(object):
             weights = np.ones(len(ells))
         if f_ell is None:
             f_ell = np.ones(len(ells))
+        if np.any((np.asarray(ells) < 0) & (np.asarray(bpws) >= 0)):
+            raise ValueError("Multipoles must not be negative")
         self.bin = lib.bins_create_py(bpws.astype(np.int32),
                                       ells.astype(np.int32),
                                       weights, f_ell, self.lmax)
-- 
2.43.0


From a2d17ab3ac1ca30007bd7ec0df56bfc09915cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 53/63] fix: from_edges dropped bandpowers when given different
 numbers of edges

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 7f922eb..26062cd 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -160,6 +160,8 @@ class NmtBin(object):
                 ``is_Dell`` is ignored. If provided, it must be sampled at
                 all :math:`\\ell` s covered by ``ell_ini`` and ``ell_end``.
         """
+        if len(ell_ini) != len(ell_end):
+            raise ValueError("Each bandpower must have two edges")
         ells, bpws, weights = [], [], []
         for ib, (li, le) in enumerate(zip(ell_ini, ell_end)):
             nlb = int(le - li)
-- 
2.43.0


From 9e2c510d7af60cd00b00c53ec421ced6b8d2f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 54/63] fix: linear binnings of negative width were accepted

---
 pymaster/bins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 26062cd..70b56bb 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -3,6 +3,8 @@ import numpy as np
 
 
 def _get_bpw_arrays_linear(lmax, nlb):
+    if nlb < 1:
+        raise ValueError("Bandpowers must contain at least one multipole")
     ells = np.arange(lmax+1, dtype=np.int32)
     bpws = ((ells-2) // nlb).astype(np.int32)
     bpws[:2] = -1
-- 
2.43.0


From 276eab6d85567f5650e2200aaf82d5dffec49ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 55/63] fix: reading from a file without a name crashed the
 process

---
 pymaster/covariance.py | 4 ++++
 pymaster/workspaces.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 4f7913d..e36177b 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -155,6 +155,8 @@ class NmtCovarianceWorkspace(object):
                 combinations of the mode-coupling coefficients will
                 be read and stored.
         """
+        if fname is None:
+            raise ValueError("Must provide a file name")
         wsp = lib.read_covar_workspace(fname, int(force_spin0_only))
         if self.wsp is not None:
             lib.covar_workspace_free(self.wsp)
@@ -279,6 +281,8 @@ class NmtCovarianceWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        if fname is None:
+            raise ValueError("Must provide a file name")
         wsp = lib.read_covar_workspace_flat(fname)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 1a9b838..3fb9d06 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -157,6 +157,8 @@ class NmtWorkspace(object):
                 mode-coupling matrix will not be read. This can save
                 significant IO time.
         """
+        if fname is None:
+            raise ValueError("Must provide a file name")
         wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         if self.wsp is not None:
             lib.workspace_free(self.wsp)
@@ -526,6 +528,8 @@ class NmtWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        if fname is None:
+            raise ValueError("Must provide a file name")
         wsp = lib.read_workspace_flat(fname)
         if self.wsp is not None:
             lib.workspace_flat_free(self.wsp)
-- 
2.43.0


From 2935be6678860d9e1ccda77a347a77432100e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 56/63] fix: flat-sky simulations without pixels crashed the
 process

---
 pymaster/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 7e504e0..589017c 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -749,6 +749,9 @@ def synfast_flat(nx, ny, lx, ly, cls, spin_arr, beam=None, seed=-1):
     if seed < 0:
         seed = np.random.randint(50000000)
 
+    if (nx < 1) or (ny < 1):
+        raise ValueError("Must supply at least one pixel per side")
+
     spin_arr = np.array(spin_arr).astype(np.int32)
     nfields = len(spin_arr)
 
-- 
2.43.0


From 14f95b607af6cfeb7074ca243e57dcb32d4db83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 57/63] fix: synfast_spherical accepted negative resolutions

---
 pymaster/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 589017c..0282176 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -621,6 +621,8 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
         seed = np.random.randint(50000000)
 
     if wcs is None:
+        if nside < 1:
+            raise ValueError("The resolution parameter must be positive")
         wtshape = [12*nside*nside]
     else:
         n_ra = int(round(360./np.fabs(wcs.wcs.cdelt[0])))
-- 
2.43.0


From a6e8e6637c6907b5e9b7ec4202e91f03fd1f26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:03 +0000
Subject: [PATCH 58/63] fix: flat-sky fields accepted negative spins

---
 pymaster/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 0cb1712..66e0006 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -671,6 +671,8 @@ class NmtFieldFlat(object):
                     raise ValueError("Spin-zero fields are "
                                      "associated with a single map")
 
+        if spin < 0:
+            raise ValueError("Spins must not be negative")
         if (pure_e or pure_b) and spin != 2:
             raise ValueError("Purification only implemented for spin-2 fields")
 
-- 
2.43.0


From 8a581504ca98fcb6dc53df492d22b197646ed1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:03 +0000
Subject: [PATCH 59/63] fix: compute_full_master_flat ignored a workspace that
 had not been computed

---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 3fb9d06..d2ab19b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1136,6 +1136,8 @@ def compute_full_master_flat(f1, f2, b, cl_noise=None, cl_guess=None,
     """
     if (f1.nx != f2.nx) or (f1.ny != f2.ny):
         raise ValueError("Fields must have same resolution")
+    if (workspace is not None) and (workspace.wsp is None):
+        raise ValueError("Must initialize workspace before using it")
     if cl_noise is not None:
         if (len(cl_noise) != f1.fl.nmaps * f2.fl.nmaps) or (
             len(cl_noise[0]) != b.bin.n_bands
-- 
2.43.0


From 106e09f397872db2e51a86df66e890ae99a49a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:26 +0000
Subject: [PATCH 60/63] fix: fields without maps accepted negative spins, and
 coupling matrices computed from them crashed the process

---
 pymaster/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 66e0006..8bb746e 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -205,6 +205,8 @@ class NmtField(object):
         if maps is None:
             if spin is None:
                 raise ValueError("Please supply field spin")
+            if spin < 0:
+                raise ValueError("Spins must not be negative")
             self.spin = spin
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
@@ -958,6 +960,8 @@ class NmtFieldCatalog(NmtField):
             if spin is None:
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
+            if spin < 0:
+                raise ValueError("Spins must not be negative")
             self.spin = spin
             return
 
-- 
2.43.0


From 61c94683ce09157eaf3e9633dfa424582e491f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 61/63] fix: reading the bands of a truncated workspace file
 used uninitialised arrays

---
 src/nmt_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 6d51caf..556379e 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -152,6 +152,13 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
+  if(*status) {
+    free(bpws);
+    free(ells);
+    free(weights);
+    free(f_ell);
+    return NULL;
+  }
   b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   if(n_bands!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
-- 
2.43.0


From afd8133dc8698167e85cf85cb5c131bd2de155a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:49 +0000
Subject: [PATCH 62/63] fix: files whose reading or writing failed were left
 open, until none could be opened

---
 src/nmt_io.c | 194 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 106 insertions(+), 88 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 556379e..6e8c25b 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -2,11 +2,21 @@
 #include "utils.h"
 #include <fitsio.h>
 
+//Closes a file before stopping, whatever state it is in
+static void close_before_error(fitsfile *fptr)
+{
+  int status=0;
+  if(fptr!=NULL)
+    fits_close_file(fptr,&status);
+}
+
 //Stops if the information needed to read an HDU could not be found
-static void check_hdu(int status,char *name)
+static void check_hdu(fitsfile *fptr,int status,char *name)
 {
-  if(status)
+  if(status) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_READ,"Error reading %s from file\n",name);
+  }
 }
 
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
@@ -44,7 +54,7 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"LMAX_MASK",&(w->lmax_mask),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
-  check_hdu(*status,"WSP_PRIMARY");
+  check_hdu(fptr,*status,"WSP_PRIMARY");
   status_pre = *status;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
   if(*status) {// maybe used old format
@@ -114,8 +124,9 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   long nrows;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
-  check_hdu(*status,arrname);
+  check_hdu(fptr,*status,arrname);
   if(nrows!=lmax_expect+1) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
 		 lmax_expect+1,nrows);
@@ -161,6 +172,7 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   }
   b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   if(n_bands!=b->n_bands) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table contents %d %d\n",
 		 n_bands, b->n_bands);
@@ -183,8 +195,9 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
-  check_hdu(*status,"BINS_SUMMARY");
+  check_hdu(fptr,*status,"BINS_SUMMARY");
   if(nrows!=b->n_bands) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
   }
@@ -200,8 +213,9 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
-    check_hdu(*status,hduname);
+    check_hdu(fptr,*status,hduname);
     if(nrows!=b->nell_list[ii]) {
+      close_before_error(fptr);
       report_error(NMT_ERROR_INCONSISTENT,
 		   "Number of rows doesn't match number of ells\n");
     }
@@ -353,9 +367,10 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   free(perm);
 }
 
-static void check_fits(int status,char *fname,int is_read)
+static void check_fits(fitsfile *fptr,int status,char *fname,int is_read)
 {
   if(status) {
+    close_before_error(fptr);
     if(is_read)
       report_error(NMT_ERROR_READ,"Error reading file %s\n",fname);
     else
@@ -365,55 +380,55 @@ static void check_fits(int status,char *fname,int is_read)
 
 void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // Workspace info HDU
   nmt_workspace_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // beam_prod HDU
   nmt_l_arr_tohdus(fptr,w->lmax_fields,w->beam_prod,"BEAMS",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // pcl_masks HDU
   nmt_l_arr_tohdus(fptr,w->lmax_mask,w->pcl_masks,"PCL_MASKS",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // bins HDUs
   nmt_binning_scheme_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // binned MCM HDU
   nmt_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   nmt_workspace *w=my_malloc(sizeof(nmt_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // beam_prod HDU
   w->beam_prod=nmt_l_arr_fromhdus(fptr,w->lmax_fields,"BEAMS",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // pcl_masks HDU
   w->pcl_masks=nmt_l_arr_fromhdus(fptr,w->lmax_mask,"PCL_MASKS",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
   if(status) { // maybe used old format
     status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
   }
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   fits_close_file(fptr,&status);
 
   return w;
@@ -472,7 +487,7 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
-  check_hdu(*status,"WSP_PRIMARY");
+  check_hdu(fptr,*status,"WSP_PRIMARY");
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -531,7 +546,7 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
-  check_hdu(*status,"FS_INFO");
+  check_hdu(fptr,*status,"FS_INFO");
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -570,7 +585,7 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
-  check_hdu(*status,"N_CELLS");
+  check_hdu(fptr,*status,"N_CELLS");
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -631,7 +646,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
-  check_hdu(*status,"MCM_BINNED");
+  check_hdu(fptr,*status,"MCM_BINNED");
   n_el=naxes[0];
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
@@ -645,8 +660,9 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
   fits_get_img_size(fptr,2,naxes,status);
-  check_hdu(*status,"MCM_BINNED_GSL");
+  check_hdu(fptr,*status,"MCM_BINNED_GSL");
   if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Inconsistent size for GSL binned MCM\n");
   }
@@ -713,7 +729,7 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
-  check_hdu(*status,"BINS_SUMMARY");
+  check_hdu(fptr,*status,"BINS_SUMMARY");
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -727,51 +743,51 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
 void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // Workspace info HDU
   nmt_workspace_flat_info_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // FS info HDU
   nmt_flatsky_info_tohdus(fptr,w->fs,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // n_cells HDU
   nmt_n_cells_tohdus(fptr,w->bin->n_bands,w->n_cells,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // binned MCM HDUs
   nmt_flat_coupling_binned_tohdus(fptr,w,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   // bins HDU
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   nmt_workspace_flat *w=my_malloc(sizeof(nmt_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // Workspace info HDU
   nmt_workspace_flat_info_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // FS info HDU
   w->fs=nmt_flatsky_info_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // n_cells HDU
   w->n_cells=nmt_n_cells_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // binned MCM HDUs
   nmt_flat_coupling_binned_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   // bins HDU
   w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   fits_close_file(fptr,&status);
 
   return w;
@@ -803,10 +819,12 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
-  check_hdu(*status,name);
+  check_hdu(fptr,*status,name);
   n_el=naxes[0];
-  if(n_el!=n_expected)
+  if(n_el!=n_expected) {
+    close_before_error(fptr);
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
+  }
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
 
@@ -821,10 +839,10 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
 void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
@@ -832,40 +850,40 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   fits_write_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   cw->lmax_mask=cw->lmax;
   fits_write_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
 
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   if(cw->spin0_only == 0) {
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1122,"XI02_1122",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi02_1221,"XI02_1221",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1122,"XI22P_1122",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22p_1221,"XI22P_1221",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1122,"XI22M_1122",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
     nmt_covar_coeffs_tohdus(fptr,cw->lmax+1,cw->xi22m_1221,"XI22M_1221",&status);
-    check_fits(status,fname,0);
+    check_fits(fptr,status,fname,0);
   }
   fits_close_file(fptr,&status);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   nmt_covar_workspace *cw=my_malloc(sizeof(nmt_covar_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   if(force_spin0)
     cw->spin0_only=1;
   else {
@@ -878,9 +896,9 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   //Empty primary
 
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1122",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1221",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   if(cw->spin0_only) {
     cw->xi02_1122=cw->xi00_1122;
     cw->xi02_1221=cw->xi00_1221;
@@ -891,17 +909,17 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   }
   else {
     cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1122",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
     cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1221",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
     cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1122",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
     cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1221",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
     cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1122",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
     cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1221",&status);
-    check_fits(status,fname,1);
+    check_fits(fptr,status,fname,1);
   }
   fits_close_file(fptr,&status);
 
@@ -910,71 +928,71 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 
 void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   fits_create_file(&fptr,fname,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
 
   //Empty primary
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
   fits_write_key(fptr,TSTRING,"EXTNAME","CWSP_PRIMARY",NULL,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
 
   //Bins
   nmt_binning_scheme_flat_tohdus(fptr,cw->bin,&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
 
   //Coeffs
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1122,"XI00_1122",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi00_1221,"XI00_1221",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1122,"XI02_1122",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi02_1221,"XI02_1221",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1122,"XI22P_1122",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22p_1221,"XI22P_1221",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1122,"XI22M_1122",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
-  check_fits(status,fname,0);
+  check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 {
-  fitsfile *fptr;
+  fitsfile *fptr=NULL;
   int status=0;
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   fits_movnam_hdu(fptr,IMAGE_HDU,"CWSP_PRIMARY",0,&status);
 
   //Bins
   cw->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
 
   //Coeffs
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1122",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1221",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1122",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1221",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1122",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1221",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1122",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1221",&status);
-  check_fits(status,fname,1);
+  check_fits(fptr,status,fname,1);
   fits_close_file(fptr,&status);
 
   return cw;
-- 
2.43.0


From 4ce1b96250ce1276fc8828b265fca53fcda92a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 63/63] fix: workspaces reported success when the end of their
 file could not be written

---
 src/nmt_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 6e8c25b..893471a 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -400,6 +400,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   nmt_coupling_binned_tohdus(fptr,w,&status);
   check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(NULL,status,fname,0);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -763,6 +764,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
   check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(NULL,status,fname,0);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -871,6 +873,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
     check_fits(fptr,status,fname,0);
   }
   fits_close_file(fptr,&status);
+  check_fits(NULL,status,fname,0);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -960,6 +963,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
   check_fits(fptr,status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(NULL,status,fname,0);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
-- 
2.43.0

