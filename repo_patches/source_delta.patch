From 628a900ed3ce1505e3468291aef435511711ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:53 +0000
Subject: [PATCH 01/17] fix: EM.PQ_vectorize overwrote the caller's
 aspect-ratio array

The 'copy' of alpha was an alias, so an aspect ratio of 1 was silently replaced by
0.999 in the caller's array (also through Berryman_sc) and the exact result for
spherical inclusions was never used.
---
 rockphypy/EM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..d0d547b 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,8 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha = np.asarray(alpha)
+        alpha_ = alpha.astype(float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From db26e1a362b54f4b67d67d82b36549e919a5e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 02/17] fix: Hudson weak-inclusion shear factor M used
 lambda+mu instead of lambda+2mu

M = 4*mu'/(pi*alpha*mu) * (lambda+2mu)/(3*lambda+4mu), as for kappa (Hudson 1981,
Rock Physics Handbook section 4.10). Only solid crack fill (Gi > 0) is affected.
---
 rockphypy/EM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index d0d547b..f66f2f4 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -249,7 +249,7 @@ class EM:
   
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
         # first order corrections
@@ -311,7 +311,7 @@ class EM:
         
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
         # first order corrections
@@ -353,7 +353,7 @@ class EM:
         crd= np.asanyarray(crd)
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
 
@@ -407,7 +407,7 @@ class EM:
         theta= np.deg2rad(theta)
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
 
-- 
2.43.0


From 4f9524c72baa59b543b7e748c55ca288f9f7ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:02 +0000
Subject: [PATCH 03/17] fix: EM.SC_flex started the shear iteration from the
 bulk modulus

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index f66f2f4..d07c1ad 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -889,7 +889,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From 1f4f2fc2c3278b8191402da7ef6bc8707240d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:45 +0000
Subject: [PATCH 04/17] fix: EM.HS failed for phases with equal moduli or a
 fluid phase

The bounds were written with (K2-K1)**-1 and 1/G2, so two phases sharing a bulk or
shear modulus, or a soft phase with zero shear modulus, raised ZeroDivisionError (or
gave nan), and integer arrays raised ValueError. Same bounds, cleared of fractions.
---
 rockphypy/EM.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index d07c1ad..704be19 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,17 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
+            M1 = K1+4*G1/3
+            K=K1+ (1-f)*(K2-K1)*M1/( M1 + f*(K2-K1) )
 
-            Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            Temp = 5*G1*M1
+            G=G1+(1-f)*(G2-G1)*Temp/( Temp + 2*f*(G2-G1)*(K1+2*G1) )
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
+            M2 = K2+4*G2/3
+            K=K2+ f*(K1-K2)*M2/( M2 + (1-f)*(K1-K2) )
 
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            Temp = 5*G2*M2
+            G=G2+f*(G1-G2)*Temp/( Temp + 2*(1-f)*(G1-G2)*(K2+2*G2) )
         return K, G
 
     @staticmethod
-- 
2.43.0


From 234a75fbe2efc667e626a589fc0e9fcb6991c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:17 +0000
Subject: [PATCH 05/17] fix: GM.johnson did not accept its documented path
 'iso_uni'

The documented name raised UnboundLocalError (the code compared with 'iso-uni'), and
in that branch a misplaced parenthesis multiplied the normal-contact term of sigma11
by the tangential stiffness.
---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..379a4b7 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni', 'iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From a06553befb185563df6287e4571cc07c9b7303af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:05 +0000
Subject: [PATCH 06/17] fix: GM.Digby failed for arrays of stress and returned
 three values at zero stress

sigma is documented as float or array-like. The cubic has exactly one real root; it is
now evaluated in closed form instead of by filtering np.roots.
---
 rockphypy/GM.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 379a4b7..54c7c08 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -514,9 +514,10 @@ class GM:
         sigma =sigma/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        # the real root of d^3 + 3/2*a_R^2*d - 3*pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0) = 0
+        q= 3*np.pi*(1-nu)*np.atleast_1d(sigma)/(4*Cn*(1-phi)*G0)
+        disc= np.sqrt(q**2+(a_R**2/2)**3)
+        root= np.cbrt(q+disc)+np.cbrt(q-disc)
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From d5022abb44798fb87b822013dbb0b199dfa7a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:16 +0000
Subject: [PATCH 07/17] fix: segmented velocity trends permuted unsorted
 depths, dropped depths and rejected scalars

Empirical.yu_segment_trend and Empirical.Japsen stacked the segments one after the
other, so for depths that were not sorted the velocities came back in a different
order than the depths, Japsen returned fewer values than depths beyond 5300 m, and a
single depth (documented) raised TypeError. Depths beyond the trend give nan.
---
 rockphypy/Emp.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..93ee7fd 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,8 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        Z= np.asarray(Z)
+        V= np.where(Z<=2630, 1707.998+0.66*Z, 1200.84+0.853*Z)
         return V
 
     @staticmethod
@@ -283,11 +282,9 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        Z= np.asarray(Z)
+        V= np.select([Z<1393, (Z>=1393)&(Z<2000), (Z>=2000)&(Z<3500), (Z>=3500)&(Z<5300)],
+                     [1550+0.6*Z, -400+2*Z, 2600+0.5*Z, 3475+0.25*Z], default=np.nan)
         return V
 
     @staticmethod    
-- 
2.43.0


From 60fc21ee817ae4a70761bca7b235642eb2b6698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 08/17] fix: Empirical.ramm_porosity_segment rejected a single
 depth

---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 93ee7fd..d65de5a 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -164,8 +164,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From cad99e9f3862f6deb3ac260201e721e5db71552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 09/17] fix: Permeability.Fredrich multiplied by the grain
 diameter instead of dividing

The pore surface area per unit volume of a sphere pack is 6*(1-phi)/d; permeability
must grow with the square of the grain diameter, it decreased with it.
---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 4d627cf5c84ad1c253a3b0162abff0f697c40360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:04 +0000
Subject: [PATCH 10/17] fix: QI.estimate_cem raised for every input and
 mislabelled points on or above a line

Writing through df.vcem.values is read-only in current pandas; a list of seeds
(documented) could not be indexed; a missing sample raised; a point exactly on a
constant-cement line was interpolated between its neighbours instead of getting that
line's cement volume; and a point above the last line always got 0.1 whatever the
last seed was.
---
 rockphypy/QI.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..8f7b022 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -558,21 +558,20 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        seeds= np.asarray(vcem_seeds)
+        vcem= np.full(len(self.Vp), np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
-            else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                vcem[i]=seeds[-1]
+            elif val > array[0]: # stays nan where the log or the modelled velocity is nan
+                big =  array[array<=val].max()# the largest element of myArr not exceeding myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                seed_big, seed_small = seeds[array==big][0], seeds[array==small][0]
+                vcem[i]=(val-small)/(big-small)*(seed_big-seed_small)+seed_small
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From c7a38791e3d30c02bf4d33716be7ea026030ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:40 +0000
Subject: [PATCH 11/17] fix: GM.silty_shale used the silt shear modulus in the
 lower bound's clay frame

---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 54c7c08..1e5bf44 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 521b402e3bff51339f216da3f02afb51bf5e1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:40 +0000
Subject: [PATCH 12/17] fix: Fluid.Biot_HF and Geertsma_Smit_HF raised for an
 integer tortuosity

---
 rockphypy/Fluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..6ff4959 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -157,7 +157,7 @@ class Fluid:
         T4=P*R-Q**2
         Vp_fast= np.sqrt( (Delta+np.sqrt(Delta**2-4*T3*T4))/(2*T3))
         Vp_slow= np.sqrt( (Delta-np.sqrt(Delta**2-4*T3*T4))/(2*T3))
-        Vs=np.sqrt(Gdry/(rho-phi*rhofl*alpha**-1))
+        Vs=np.sqrt(Gdry/(rho-phi*rhofl/alpha))
         return Vp_fast,Vp_slow,Vs
 
     @staticmethod
@@ -190,7 +190,7 @@ class Fluid:
         """        
            
         rho=(1-phi)*rho0+phi*rhofl # bulk density
-        rho_biot= rho0*(1-phi)+phi*rhofl*(1-alpha**-1)
+        rho_biot= rho0*(1-phi)+phi*rhofl*(1-1/alpha)
         Hdry= Kdry+4*Gdry/3
         T1=phi*rho/(rhofl*alpha)
         alpha_biot= 1-Kdry/K0
-- 
2.43.0


From aed5708c3cbcd3c4bde5d0be1700de45d651c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:16 +0000
Subject: [PATCH 13/17] fix: AVO.EI_ref raised for integer density logs

---
 rockphypy/AVO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..0639e6d 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -344,7 +344,7 @@ class AVO:
         EI_svsv= isn*Vs**B*rho**C
         # SH-SH
         B = -1+np.tan(theta_s)**2
-        C = -1
+        C = -1.0
         EI_shsh= isn*Vs**B*rho**C
         return EI_pp,EI_psv,EI_svp,EI_svsv,EI_shsh
 
-- 
2.43.0


From d28c11fa3c4f6d27910c77fd1d10b33ef6ce3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:34 +0000
Subject: [PATCH 14/17] fix: OConnell_Budiansky_fl converged to unphysical
 roots (negative shear modulus, stiffer than the solid)

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 704be19..b56085b 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -719,7 +719,7 @@ class EM:
     
         nu_eff, D = params
 
-        eq1 = 45/16 * (nu_0-nu_eff)/(1-nu_eff**2)*(2-nu_eff)/(D*(1+3*nu_0)*(2-nu_eff)-2*(1-2*nu_0)) - crd   # eq 23 in OC&R, 1974
+        eq1 = 45/16 * (nu_0-nu_eff)/(1-nu_eff**2)*(2-nu_eff) - crd*(D*(1+3*nu_0)*(2-nu_eff)-2*(1-2*nu_0))   # eq 23 in OC&R, 1974
         eq2 = crd * D**2-( crd+9/16 * (1-2*nu_eff)/(1-nu_0**2) + 3*w/(4*np.pi))*D + 9/16 * (1-2*nu_eff)/(1-nu_0**2) # eq 23 in OC&R, 1974
         return  [eq1,eq2]
 
-- 
2.43.0


From 20a13c684e7f90d5ddc1e8aa0fecfa4784684be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 15/17] fix: GM.diluting returned negative weights above the
 reference stress for odd integer exponents

---
 rockphypy/GM.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 1e5bf44..5e470c4 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -637,8 +637,7 @@ class GM:
         array-like
             stress dependent diluting parameter
         """          
-        alpha= k*(1-sigma/sigma0)**m
-        alpha[np.isnan(alpha)]=0
+        alpha= k*np.fmax(1-sigma/sigma0,0)**m # no dilution above the reference stress
         return alpha
 
     @staticmethod
-- 
2.43.0


From 5c5d57573b75c05e1ae33be0899cf6e6bbd5999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:40 +0000
Subject: [PATCH 16/17] fix: EM.SC_dilute and EM.SC_flex divided by zero for
 inclusions with a modulus of the matrix

---
 rockphypy/EM.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index b56085b..b49fbe5 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -854,11 +854,11 @@ class EM:
         S1 = 1/3 * (1+nu)/( 1-nu)
         S2 = 2/15 * (4-5*nu)/(1-nu)
         if mode == 'stress':
-            K = ( 1+ f * (Km/ (Km-Ki)- S1)**-1)**-1
-            G = ( 1+ f * (Gm/ (Gm-Gi)- S2)**-1)**-1
+            K = ( 1+ f * (Km-Ki)/(Km-S1*(Km-Ki)))**-1
+            G = ( 1+ f * (Gm-Gi)/(Gm-S2*(Gm-Gi)))**-1
         elif mode == 'strain':
-            K = 1-f*(Km/(Km-Ki)-S1)**-1
-            G = 1-f*(Gm/(Gm-Gi)-S2)**-1
+            K = 1-f*(Km-Ki)/(Km-S1*(Km-Ki))
+            G = 1-f*(Gm-Gi)/(Gm-S2*(Gm-Gi))
         return K, G
 
     @staticmethod
@@ -896,9 +896,9 @@ class EM:
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
             S2 = 2/15 * (4-5*nu)/(1-nu)
-            K_eff = (1- f* K_eff*(Km-Ki)/(Km*(K_eff-Ki)) *(K_eff/(K_eff-Ki)-S1)**-1) * Km
+            K_eff = (1- f* K_eff*(Km-Ki)/(Km*(K_eff-S1*(K_eff-Ki)))) * Km
 
-            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-Gi)) *(G_eff/(G_eff-Gi)-S2)**-1 ) *Gm 
+            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-S2*(G_eff-Gi)))) *Gm 
         return K_eff,G_eff
 
     @staticmethod
-- 
2.43.0


From d43e165f22c7c0ed1f7e544b674f72243ef77363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:47 +0000
Subject: [PATCH 17/17] fix: EM.Berryman_sc converged to negative moduli for
 strongly contrasting phases

---
 rockphypy/EM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index b49fbe5..aa3366c 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -465,7 +465,12 @@ class EM:
         G= np.asanyarray(G)
         X=np.asanyarray(X)
         Alpha=np.asanyarray(Alpha)
-        K_sc,G_sc=  fsolve(EM.Berryman_func, (K.mean(), G.mean()), args = (K,G,X,Alpha))
+        K_sc,G_sc= K.mean(), G.mean()
+        # a few fixed-point sweeps stay between the phases and lead the solver to the physical root
+        for i in range(20):
+            P,Q= EM.PQ_vectorize(K_sc,G_sc, K,G, Alpha)
+            K_sc,G_sc= np.sum(X*K*P)/np.sum(X*P), np.sum(X*G*Q)/np.sum(X*Q)
+        K_sc,G_sc=  fsolve(EM.Berryman_func, (K_sc,G_sc), args = (K,G,X,Alpha))
         return K_sc,G_sc
 
     @staticmethod
-- 
2.43.0

