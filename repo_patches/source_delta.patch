From 2980b2d4bb96b823e5bbb32dde67600ab92f53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 01/32] fix: unconstrained problems with infinite bounds
 crashed in the optimality residual

With nb+mi+me == 0 the multiplier vector is empty, and indexing it with the
empty active-bound list raised ValueError.
---
 sqpdfo/sqpdfo_optimality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_optimality.py b/sqpdfo/sqpdfo_optimality.py
index 5781f5a..d5ae6d1 100644
--- a/sqpdfo/sqpdfo_optimality.py
+++ b/sqpdfo/sqpdfo_optimality.py
@@ -38,7 +38,8 @@ def sqpdfo_optimality_(x=None,lm=None,lb=None,ub=None,info_=None,options=None,*a
             info.glag[i],lm[i]))
             
     I=find_(bounds[0:n])
-    info.glag[I]=info.glag[I] + lm[I]
+    if not isempty_(I):
+        info.glag[I]=info.glag[I] + lm[I]
 
     # contribution of the equality constraints
     
-- 
2.43.0


From 2054e9e2f81ca93091e87eb1935427ade4ac2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 02/32] fix: constraint Jacobian undefined when the very first
 trial step is rejected

sqpdfo_main used gce (gci) in the rejection branch before any branch had
computed it; start from the Jacobian of the initial model.
---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..4e43482 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=copy(info.ai)
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=copy(info.ae)
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From cba295232adb969ba627b3d178db2e5a4e30e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 03/32] fix: hard case of the More-Sorensen solver raised
 ValueError

numpy.poly1d needs scalar coefficients; the linear one was a (1,1) array, and
so can be the constant one (the trust-region radius may come as such).
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..3586e47 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].dot( scri).item(),float(nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 87f065a9ae8a2988e72c4565654bee83364e44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 04/32] fix: minimum Frobenius norm models could not be built

Between the linear and the fully quadratic degree, the model and its Lagrange
polynomials used undefined arrays and transposed shapes, so every run with
whichmodel='Frobnorm' that got there crashed; at linear degree the Lagrange
polynomials were not padded to full length and QZ/RZ' was an elementwise
division.
---
 sqpdfo/bcdfo_computeLj.py | 9 +++++----
 sqpdfo/bcdfo_computeP.py  | 9 +++++----
 sqpdfo/bcdfo_evalL.py     | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..addefd8 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -66,7 +66,7 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
 #       build linear/quadratic Lagrange polynomials 
            Lj=(numpy.linalg.solve(RZ,QZ.T).dot(concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 - j,1)],axis=0))).T
            if (p1 == n + 1):
-                Lj[n + 1:q]=0
+                Lj=concatenate_([Lj,zeros_(1,q - p1)],axis=1)
         else:
 #       build Minimum Frobenius-norm Lagrange polynomials (p1 <= q)
 #
@@ -81,12 +81,13 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
                 Y=Y / scaleY
 #       compute the right-hand side of the system
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
-            mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
+            mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))
+            Lj=zeros_(1,q)
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj[:,0:n + 1]=mualpha[p1:p1 + n + 1].T
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[:,n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..b755d19 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -98,13 +98,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
 
             P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
-                mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
+                rhs=concatenate_([fY[[i],:],zeros_(1,n + 1)], axis=1)
+                mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))
+                P_i=zeros((1,q))
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P_i[:,0:n + 1]=mualpha[p1:p1 + n + 1].T
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
+                P_i[:,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1]).T
                 P=concatenate_([P, P_i])
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..d3aefa3 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -2,6 +2,7 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 import numpy
 from copy import copy
     
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -67,7 +68,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (numpy.linalg.solve(RZ,QZ.T).T)),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
@@ -83,10 +84,10 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
             M=bcdfo_evalZ_(Y,q).T
             MQ=M[:,n + 1:q]
             if (shift_Y):
-                phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
+                phi=bcdfo_evalZ_((x - xbase.reshape(-1,1)) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From f8ba913f51a3f90f0408f455bc6040abd49514fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 05/32] fix: slack variables of an earlier run leaked into a
 later run without inequalities

---
 sqpdfo/sqpdfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..963f8f4 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -129,6 +129,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
 
     # Handling of inequalities as slack variables
 
+    glob.set_nbr_slacks(0)
+    glob.set_slacks(None)
+
     if mi:
 
         if li is None:
-- 
2.43.0


From d98460126545c2a8d61ce37dff9748c66971722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 06/32] fix: missing bounds got the wrong shape for a column
 starting point

They were built as the transpose of x0, which is a row for the column x0 the
solver accepts (and of integer type for an integer x0).
---
 sqpdfo/sqpdfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 963f8f4..9409d43 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -110,11 +110,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     elif not isinstance(x0, np.ndarray):
         x0 = array([x0])
     if lb is None:
-        lb = -1e20 * np.ones_like(x0).T
+        lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
         lb = array([lb]).T
     if ub is None:
-        ub = 1e20 * np.ones_like(x0).T
+        ub = 1e20 * np.ones((x0.size, 1))
     elif not isinstance(ub, np.ndarray):
         ub = array([ub]).T
 
-- 
2.43.0


From 05ae5a11114592deda0bd57cf2d6bc9898406d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/32] fix: failed evaluation during an improvement step
 crashed the solver

Its error flag was not looked at, and the missing value was then read.
---
 sqpdfo/sqpdfo_main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4e43482..ca6bcae 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -513,6 +513,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
                                    
+                if info.flag:
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+                    
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From 682d34bfda16214cd77199df3d78a81069c30094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 08/32] fix: integer starting points lost the fractional part
 when moved inside the bounds

---
 sqpdfo/sqpdfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 9409d43..ae66c18 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -109,6 +109,7 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         return x, lm, info
     elif not isinstance(x0, np.ndarray):
         x0 = array([x0])
+    x0 = x0.astype(float)  # components of x0 may be shifted by fractions
     if lb is None:
         lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
-- 
2.43.0


From 11691d1065dc7170ff96b4c0ce1b2dee50fc4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 09/32] fix: restarting the BFGS approximation raised NameError

---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
-- 
2.43.0


From 8efa68d61805d22eb2c9b43dece952a6e22215b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 10/32] fix: returned objective value belonged to a rejected
 trial point

---
 sqpdfo/sqpdfo.py      | 5 ++---
 sqpdfo/sqpdfo_main.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index ae66c18..c7ca5a7 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -343,10 +343,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
-    info_best=copy(info)
-    info_best.f=fx
+    info.f=fx   # info.f may be the value at a rejected trial point
     x=X[:,i_xbest]
-    sqpdfo_finish_(nb,mi,me,info_best,options,values)
+    sqpdfo_finish_(nb,mi,me,info,options,values)
 
     #---------------------------------------
     # Recover the results
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index ca6bcae..a854c9e 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1474,7 +1474,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=copy(fx)
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From d6e61faa77bf19373db9f6fddbee9a6186a5b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 11/32] fix: detailed output crashed on unconstrained problems

---
 sqpdfo/sqpdfo_optimality.py | 2 +-
 sqpdfo/sqpdfo_prelim.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_optimality.py b/sqpdfo/sqpdfo_optimality.py
index d5ae6d1..64fa737 100644
--- a/sqpdfo/sqpdfo_optimality.py
+++ b/sqpdfo/sqpdfo_optimality.py
@@ -31,7 +31,7 @@ def sqpdfo_optimality_(x=None,lm=None,lb=None,ub=None,info_=None,options=None,*a
 
     # contribution of the variable bounds
 
-    if options.verbose >= 4:
+    if options.verbose >= 4 and not isempty_(lm):
         fprintf_('\n     lb             x            ub             glag            lm\n')
         for i in range(0,n):
             fprintf_('%12.5e  %12.5e  %12.5e  %12.5e  %12.5e\n'%(lb[i],x[i],ub[i],\
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..153c0b3 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -547,14 +547,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and isfield_(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
-- 
2.43.0


From 9d9b18262c66b57facc859ce82262d4fd908cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 12/32] fix: no error status when the initial function values
 are not finite

---
 sqpdfo/sqpdfo_prelim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 153c0b3..d68bec9 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -399,9 +399,10 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
 
             #  Terminate with an error message if Delta0 becomes negligible wrt x0.
 
-            if (Delta0 < stallfact * norm_(x0)):
+            if (Delta0 <= stallfact * norm_(x0)):
                 disp_('Error: cannot find enough finite objective function values',\
                 ' in the neighbourhood of the starting point! Terminating.')
+                info.flag=values.fail_on_simul
 
                 #  including fixed variables at return
 
-- 
2.43.0


From 1aeadfd13e45a98a186524245db905e87904da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/32] fix: points inside asymmetric bounds were not
 considered as best point

---
 sqpdfo/sqpdfo_find_smallf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..0921325 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -88,8 +88,11 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     dummy_set=find_(dstatus == c.dummy)
     ind_insideBounds=array([])
     
+    xl_free=xl[indfree].reshape(-1)
+    xu_free=xu[indfree].reshape(-1)
+
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,i] < xl_free , Y[:,i] > xu_free),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
-- 
2.43.0


From fb7336052fc63dd00b8b6999b43e8b2bd31eda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 14/32] fix: second interpolation point could not become the
 best point

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 0921325..bf4fa50 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -119,7 +119,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 0b606b423ebf37ffec4e1b3af5dcccd0d2a28a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 15/32] fix: penalty parameter truncated to an integer when
 choosing the best point

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index bf4fa50..41226ad 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -110,7 +110,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=fY + float(sigma) * norm_ceY
     
     #  Find the smallest function value among them
 
-- 
2.43.0


From 24d26656365d3334178dc10ee33b77c0be75ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 16/32] fix: hard case of the More-Sorensen solver used
 non-orthogonal eigenvectors

---
 sqpdfo/bcdfo_solve_TR_MS.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 3586e47..a85612a 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -275,9 +275,10 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
 
     #  Find eigen decomposition and the minimal eigenvalue.
     
-    V,D=eig_(H,nargout=2)
-    V = numpy.real(V)
-    D = numpy.real(D)
+    # (H is symmetric: eigh returns orthonormal eigenvectors also for multiple eigenvalues)
+
+    D,V=numpy.linalg.eigh(H)
+    D = numpy.diag(D)
     neigd=neigd + 1
     mu,imu=min_(numpy.diag(D),nargout=2)
     
-- 
2.43.0


From 0250c642f4ec9085e4c81d06edb98713b550dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 17/32] fix: infinite constraint values crashed or were
 replaced by a value of the wrong sign

---
 sqpdfo/sqpdfo_main.py   | 5 +++--
 sqpdfo/sqpdfo_prelim.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index a854c9e..e4ccefb 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -794,8 +794,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             fxplus=copy(fX[m])
             
             if ceX.any():
-                ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                cmax = 10*abs(ceX[abs(ceX) < 1e25]).max(initial=1.0)
+                ceX[ceX>=1e25] = cmax
+                ceX[ceX<=-1e25] = -cmax
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index d68bec9..c49ed28 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -379,8 +379,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             
         # Check for infinity constraint values
         
-        ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-        ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+        cmax = 10 * abs(ceX[abs(ceX) < 1e25]).max(initial=1.0)
+        ceX[ceX>=1e25] = cmax
+        ceX[ceX<=-1e25] = -cmax
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From cf7824baf6daa3f37bbb0656805bef35581c2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 18/32] fix: detailed output changed the convergence test after
 a set improvement

---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index e4ccefb..f66f9a3 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -480,11 +480,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                poised_Y,_=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poised_Y))
                 
             poised_model=1
 
-- 
2.43.0


From 6bded624c2b37cd022495db4091b1ddd7f703af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 19/32] fix: bounded least squares stopped at a vertex that is
 not optimal

---
 sqpdfo/blls.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..96d8094 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -193,13 +193,11 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
    ##########################################################################
    #       Beyond the Cauchy point: nested subspace minimization            #
    ##########################################################################
-   # The Cauchy point is optimal for the problem because either there is no 
-   # free variable left (which implies opt = 0) or because the residual is 
-   # zero: terminate as s is the problem's solution.
+   # There is no free variable left or the residual is zero: no subspace
+   # search (the optimality measure below tells whether s is the solution).
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
@@ -378,9 +376,9 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
                             print("indices_of_variables_at_their_upper_bound="+str(atub))
                             print("indices_of_free_variables="+str(free))
                     break
-            # Compute the optimality measure.
+        # Compute the optimality measure.
 
-           opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
+        opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
        # Iteration printout
 
         if (verbose == 1):
-- 
2.43.0


From be8f12b666b758feda45b683eb598ea7fa371242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 20/32] fix: keep the objective of the current iterate when a
 step is not taken because the model is inaccurate

---
 sqpdfo/sqpdfo_main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index f66f9a3..ba2ff9b 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1085,6 +1085,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 pos=0
                 rho=1
                 
+                # the step is not taken: recover f at the current iterate
+                
+                info.f=copy(fx)
+                
             if (rho < eta1) or (pos == -1):
             
                 itype='repD,repF,repC,redD'
-- 
2.43.0


From 2c3817153f6708d207ec9d3294dbbc30cc583a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 21/32] fix: default of bfgs_restart missing when the option is
 left out

---
 sqpdfo/sqpdfo_options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..faeeec0 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value: no restart
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From 903a6c71bfad56c383827522dd669333a5ba22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 22/32] fix: integer constraint values raised OverflowError

---
 sqpdfo/sqpdfo_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..d49f8e3 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -36,7 +36,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     if cfunc != '':
         try:
             c = cfunc(xc)
-            c = array(c).reshape(-1, 1)
+            c = array(c, dtype=float).reshape(-1, 1)
         except:
             msgc = 1
     if msgf > 0 or msgc > 0:
-- 
2.43.0


From 43135b5ddcdff68ed164a22e74e2beca3db2f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 23/32] fix: tangential step of the slack variables counted
 twice after a bound was hit

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..b6f87dd 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -357,10 +357,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             r_slsl = r_sl[n:n+nbr_slacks]
             t_slsl = t_sl[n:n+nbr_slacks]
             
-            if iter_active == 1:
-                slnew = sl + r_slsl + t_slsl
-            else:
-                slnew = slnew + t_slsl
+            slnew = sl + r_slsl + t_slsl
                 
             # check slacks to stay in their bounds
             
@@ -564,10 +561,8 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             step=r_sl + tstep
             
             if nbr_slacks:
-                if iter_active == 1:
-                    slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
-                else:
-                    slnew = slnew + tstep[n:n+nbr_slacks]
+                slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
+                sl = slnew
             
             if options.verbose == 3:
                 disp_('t = (',str(tstep[0:n].T),')')
-- 
2.43.0


From dab4c4d1c12f1c027e56264a1076cecca653a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 24/32] fix: variable at a bound without tangential step
 blocked the whole step

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index b6f87dd..13f9777 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -538,13 +538,10 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 alpha=concatenate_([ub[0:n],- lb[0:n]])
                         
             divisor=aT.dot(tstep)
-            indices1 = find_(divisor < 1e-15)
-            indices2 = find_(divisor > -1e-15)
-            iii = [i in indices2 for i in indices1]
-            indices = indices1[iii]
-            divisor[indices] = 1e-15
-            ratio=(alpha - aTx) / divisor
-            minratio=min_(ratio[divisor > 0])
+            # components which do not move cannot reach a bound
+            moving=divisor > 1e-12 * norm_(tstep)
+            ratio=(alpha - aTx)[moving] / divisor[moving]
+            minratio=min_(ratio) if len(ratio) > 0 else 0.
             
             if (minratio < 0):
                 # in case xk is slightly in the infeasible region, this should not
-- 
2.43.0


From 1685bcbbba88b7c553ba111f8df3b8b407b5503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 25/32] fix: memorize the merit function at the new iterate
 when the iterate moves after a rejected step

---
 sqpdfo/sqpdfo_main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index ba2ff9b..bb71c60 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -544,6 +544,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            # the merit function has to be memorized at the new iterate
+
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
@@ -1272,6 +1277,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                     disp_(' swapped point to position 1')
                                     
                                 itype='repFs'
+                                radius_has_been_rejected=copy(False)
                                 
                                 #  Update the trust-region radius.
 
@@ -1395,6 +1401,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                         disp_(' swapped point to position 1')
                                         
                                     itype='repCs'
+                                    radius_has_been_rejected=copy(False)
                                     
                                     #  Update the trust-region radius.
 
-- 
2.43.0


From e899b3131456482431b28af4fa89a8b51240cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 26/32] fix: constraint values of the trial point were lost
 while all constraint values were zero

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index bb71c60..426619a 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -798,7 +798,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if not isempty_(ceX):
                 cmax = 10*abs(ceX[abs(ceX) < 1e25]).max(initial=1.0)
                 ceX[ceX>=1e25] = cmax
                 ceX[ceX<=-1e25] = -cmax
-- 
2.43.0


From 2bce796a8334d995beefa46955630862885eabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:46 +0000
Subject: [PATCH 27/32] fix: a run started by the user functions replaced the
 functions and slack variables of the run in progress

---
 sqpdfo/sqpdfo.py                  | 17 +++++++++++++++++
 sqpdfo/sqpdfo_global_variables.py |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index c7ca5a7..ed6c28f 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -9,8 +9,25 @@ from sqpdfo.sqpdfo_evalfgh import sqpdfo_evalfgh_
 from copy import copy
 from numpy import array
 from sqpdfo.helper import *
+from functools import wraps
 
 
+def keep_run_state_(fun):
+    """
+# The functions of the user may run the optimizer themselves: give the run
+# in progress its global variables back
+    """
+    @wraps(fun)
+    def run(*args, **kwargs):
+        state = glob.get_run_state()
+        try:
+            return fun(*args, **kwargs)
+        finally:
+            glob.set_run_state(state)
+    return run
+
+
+@keep_run_state_
 def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,func_c=None, li=None, ui=None):
     """
 # [x,lm,info] = sqpdfo_(options)
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 51e44fc..0040464 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -136,3 +136,10 @@ def get_nbr_slacks():
     
 def get_slacks():
     return slacks
+
+def get_run_state():
+    return filename_f, filename_cons, nbr_slacks, slacks
+
+def set_run_state(value):
+    global filename_f, filename_cons, nbr_slacks, slacks
+    filename_f, filename_cons, nbr_slacks, slacks = value
-- 
2.43.0


From 29a63bd051b789d5a522c8bc8919c0df2a13c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:50 +0000
Subject: [PATCH 28/32] fix: runs in different threads used the functions and
 slack variables of each other

---
 sqpdfo/sqpdfo_global_variables.py | 45 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 0040464..9b7b6ac 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import sys
+import threading
 import types
 
 """
@@ -16,6 +17,15 @@ Variables are not initialized here so that we are sure that the user set them hi
 """
 
 
+class run_variables(threading.local):
+    # variables of the run in progress, of which there may be one in each thread
+    filename_f = None
+    filename_cons = None
+    nbr_slacks = 0
+    slacks = None
+
+run = run_variables()
+
 class sqpdfo_global_variables:
     # default values, in case the global variable is not set by the user
     global prob
@@ -28,14 +38,6 @@ class sqpdfo_global_variables:
     check_condition = 1  # Check condition of the interpolation matrix regularly
     global simul_not_initialized
     simul_not_initialized = 1  # Initial value
-    global filename_f
-    filename_f = None
-    global filename_cons
-    filename_cons = None
-    global nbr_slacks
-    nbr_slacks = 0
-    global slacks
-    slacks = None
 
 def set_prob_cuter(prob_cuter, params):
     global cproblem
@@ -79,30 +81,26 @@ def set_check_condition(value):
     check_condition=value
 
 def set_filename_f(value):
-    global filename_f
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
     elif isinstance(value, types.FunctionType):
-        filename_f = value
+        run.filename_f = value
     else:
         sys.exit('Error: function handle for the objective is not of type function !')
 
 def set_filename_cons(value):
-    global filename_cons
     if isinstance(value, types.FunctionType):
-        filename_cons = value
+        run.filename_cons = value
     elif value is '' or value is None:
-        filename_cons = ''
+        run.filename_cons = ''
     else:
         sys.exit('Error: function handle for the constraints is not of type function !')
 
 def set_nbr_slacks(value):
-    global nbr_slacks
-    nbr_slacks = value
+    run.nbr_slacks = value
     
 def set_slacks(value):
-    global slacks
-    slacks = value
+    run.slacks = value
 
 def get_prob_cuter():
     return cproblem
@@ -126,20 +124,19 @@ def get_check_condition():
     return check_condition
 
 def get_filename_f():
-    return filename_f
+    return run.filename_f
 
 def get_filename_cons():
-    return filename_cons
+    return run.filename_cons
     
 def get_nbr_slacks():
-    return nbr_slacks
+    return run.nbr_slacks
     
 def get_slacks():
-    return slacks
+    return run.slacks
 
 def get_run_state():
-    return filename_f, filename_cons, nbr_slacks, slacks
+    return run.filename_f, run.filename_cons, run.nbr_slacks, run.slacks
 
 def set_run_state(value):
-    global filename_f, filename_cons, nbr_slacks, slacks
-    filename_f, filename_cons, nbr_slacks, slacks = value
+    run.filename_f, run.filename_cons, run.nbr_slacks, run.slacks = value
-- 
2.43.0


From 8b1e84fd257121118b166b9d7ed8084576243e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:00 +0000
Subject: [PATCH 29/32] fix: an objective or constraint that is a method or
 callable object ended the interpreter

---
 sqpdfo/sqpdfo.py                  | 6 ++++++
 sqpdfo/sqpdfo_global_variables.py | 5 ++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index ed6c28f..267bdbb 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -109,6 +109,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if func_f == None:
         print('Error: Definition of the objective function (in func_f()) is missing !')
         return x, lm, info
+    elif not callable(func_f):
+        print('Error: the objective func_f is not a function !')
+        return x, lm, info
     else:
         glob.set_filename_f(func_f)
     if func_c == None:
@@ -116,6 +119,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         if me+mi>0:
             print('Error: me+mi > 0 but no function handle func_c() for constraints is given!')
             return x, lm, info
+    elif not callable(func_c):
+        print('Error: the constraint function func_c is not a function !')
+        return x, lm, info
     else:
         glob.set_filename_cons(func_c)
 
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 9b7b6ac..8c87c41 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 import sys
 import threading
-import types
 
 """
 This file is used to set and get the global variables used in the SQPDFO algorithm.
@@ -83,13 +82,13 @@ def set_check_condition(value):
 def set_filename_f(value):
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
-    elif isinstance(value, types.FunctionType):
+    elif callable(value):
         run.filename_f = value
     else:
         sys.exit('Error: function handle for the objective is not of type function !')
 
 def set_filename_cons(value):
-    if isinstance(value, types.FunctionType):
+    if callable(value):
         run.filename_cons = value
     elif value is '' or value is None:
         run.filename_cons = ''
-- 
2.43.0


From 3451e21f6695bea6f4fa1f559702b8be8cf52539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 30/32] fix: bounds given as rows or flat arrays and nested
 lists ended the run with an exception

---
 sqpdfo/sqpdfo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 267bdbb..56e9f35 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -131,16 +131,16 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         print('Error: No starting values of x given !')
         return x, lm, info
     elif not isinstance(x0, np.ndarray):
-        x0 = array([x0])
+        x0 = np.atleast_2d(x0)
     x0 = x0.astype(float)  # components of x0 may be shifted by fractions
     if lb is None:
         lb = -1e20 * np.ones((x0.size, 1))
-    elif not isinstance(lb, np.ndarray):
-        lb = array([lb]).T
+    else:
+        lb = array(lb).reshape(-1, 1)
     if ub is None:
         ub = 1e20 * np.ones((x0.size, 1))
-    elif not isinstance(ub, np.ndarray):
-        ub = array([ub]).T
+    else:
+        ub = array(ub).reshape(-1, 1)
 
 	# check existence of options
 
-- 
2.43.0


From f72e626a7d604b2e82b704faa59fc8d4f6d0c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:31 +0000
Subject: [PATCH 31/32] fix: an objective that changes the vector it is given
 changed the vector given to the constraints

---
 sqpdfo/sqpdfo_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index d49f8e3..be8b211 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,13 +29,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(xc)
+        f = ffunc(list(xc))
     except:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(xc)
+            c = cfunc(list(xc))
             c = array(c, dtype=float).reshape(-1, 1)
         except:
             msgc = 1
-- 
2.43.0


From 2d2bedbd37970e7c8362f28ec5487249f2ca70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:51 +0000
Subject: [PATCH 32/32] fix: an objective returned in an array that is used
 again by the next call replaced the values of earlier points

---
 sqpdfo/sqpdfo_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index be8b211..365c3e8 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,7 +29,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(list(xc))
+        f = copy(ffunc(list(xc)))
     except:
         f = np.inf
         msgf = 1
-- 
2.43.0

