From 3485394d5fd5c2b8de5eb525bf0e56a687ac57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 01/12] fix: couple the out-of-plane/hoop normal component in
 elast_mat_2d and elast_mat_axi

---
 solidspy/femutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..7ae278e 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -608,10 +608,10 @@ def elast_mat_2d(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-    [2*mu + lamda, lamda, 0, 0],
-    [lamda, 2*mu + lamda, 0, 0],
+    [2*mu + lamda, lamda, 0, lamda],
+    [lamda, 2*mu + lamda, 0, lamda],
     [0, 0, mu, 0],
-    [0, 0, 0, 2*mu + lamda]])
+    [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
@@ -638,10 +638,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From 1dc9141149c18c609871eaa639505c0495b418c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/12] fix: spring returns a 4x4 zero mass matrix, as
 documented and as the assembler needs

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 64a8346de6faea3cd79961527a69ec58d872461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 03/12] fix: rotate beam elements from global to local axes
 with the right sign

---
 solidspy/uelutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..e503fbd 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -543,9 +543,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
@@ -601,11 +601,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From db29a1de4b027add13d612a1853d3db0ab8c1cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 04/12] fix: beam2D accepts a density given as fourth parameter

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index e503fbd..2ab8748 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -621,7 +621,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From f884d32251797ff04d8fa69d898be744c2bc61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 05/12] fix: add up the load records applied to the same node

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From dc4cdfc564f4ee43934d4af1bfe38aa60a72faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 06/12] fix: second coordinate of the strain sampling points

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 7ae278e..4952620 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From 29993eb35b40a4b78c78b0145d1e4f7abed2b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 07/12] fix: str_el3 samples the strain at a point for each one
 of the three nodes

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 4952620..bc21214 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From c7f4681d8c90f27b2b9e5b10bfa13ba3fdaa36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 08/12] fix: assign strains of quad4 Gauss points to their
 closest nodes

---
 solidspy/postprocesor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..bb9a759 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -379,6 +379,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
         ul[1::2] = sol_complete[IELCON[el, :], 1]
         if iet == 1:
             epsG, _ = fe.str_el4(elcoor, ul)
+            # Gauss points in the order of the nodes they are closest to
+            epsG = epsG[[0, 2, 3, 1], :]
         elif iet == 2:
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
-- 
2.43.0


From b498750ddc75829a042ee6e000fe0d380c11de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 09/12] fix: nodal strains and stresses accept materials with
 density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index bb9a759..7ebe1e5 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From a5bfea8598c778c7bc0dc0661cce4420df3934c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 10/12] fix: eigvals uses np.nan, np.NaN was removed in NumPy 2

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 7ebe1e5..4d42a2b 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -598,8 +598,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 83f56b217f2054415651f79cc5fba2c387957ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 11/12] fix: image degrees of freedom get the new number of
 their reference

---
 solidspy/blochutil.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..662ee1a 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -45,18 +45,14 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
         List with new numbering for the dof after applying Bloch analysis.
 
     """
-    new_num = []
+    new_num = [0]*ndofs
     cont = 0
     for cont_dof in range(ndofs):
-        if cont_dof in dofs_ima:
+        if cont_dof not in dofs_ima:
+            new_num[cont_dof] = cont
             cont += 1
-            ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
-        else:
-            new_num.append(cont_dof - cont)
+    for ima_dof, ref_dof in zip(dofs_ima, dofs_ref):
+        new_num[ima_dof] = new_num[ref_dof]
     return new_num
 
 
-- 
2.43.0


From 3eeb8bd373449f230632dc54225554a9ac4fff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 12/12] fix: tri_plot passes to each Matplotlib function the
 arguments it accepts

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 4d42a2b..6eb47fc 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0

