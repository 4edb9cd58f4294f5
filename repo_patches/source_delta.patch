From 200a5ba3107a63d595000422b57ed74c139fb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 01/20] fix: symmetrize_71: entries with two equal
 antisymmetric indices vanish

---
 wilson/util/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wilson/util/common.py b/wilson/util/common.py
index 78e358f..f69f66e 100644
--- a/wilson/util/common.py
+++ b/wilson/util/common.py
@@ -746,6 +746,9 @@ class EFTutil:
     @staticmethod
     def symmetrize_71(b):
         a = np.array(b, copy=True, dtype=complex)
+        a[0, 0] = 0
+        a[1, 1] = 0
+        a[2, 2] = 0
         a[1, 0, 0, 0] = -a[0, 1, 0, 0]
         a[1, 0, 0, 1] = -a[0, 1, 0, 1]
         a[1, 0, 0, 2] = -a[0, 1, 0, 2]
-- 
2.43.0


From 2e0a999c7d79c9e5c50f61462b94b77578d460c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 02/20] fix: m_c: the input value is the result only in the
 4-flavour theory

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From 839e343dc482705a6bc28ce0e1743337ba44daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 03/20] fix: flavio_to_Bern: keep lepton-flavour violating s->d
 coefficients

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..2b8bd06 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1954,11 +1954,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0


From 0a6a5795c65c24fb238d2247ddac6782e59ee513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 04/20] fix: translation from JMS to Bern, EOS, FormFlavor
 restricted to sectors

It failed with KeyError: the translators use arrays of all sectors.
---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 2b8bd06..8aa1b1c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1726,7 +1726,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -1990,7 +1990,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -2009,7 +2009,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
-- 
2.43.0


From 22ae59f8e51bedce498be569b29063ad7219d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 05/20] fix: b->s::c5 in EOS basis is a number, not a tuple

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 8aa1b1c..7085fd2 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From 7f0754aa5c1f55911a2c98a907ea6bd79dbe8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 06/20] fix: real and imaginary parts in EOS basis include the
 CKM prefactor

The complex prefactor multiplied the parts instead of the coefficient.
---
 wilson/translate/wet.py | 76 ++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 7085fd2..1b9e393 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1036,16 +1036,16 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbuu['Fsbuu1'] / 36 + Fsbuu['Fsbuu2'] / 18
         - Fsbuu['Fsbuu4'] / 30
     )
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        'b->s::c1' : np.real(c1),
-        'b->s::c2' : np.real(c2),
-        'b->s::c3' : np.real(c3),
-        'b->s::c4' : np.real(c4),
-        'b->s::c5' : np.real(c5),
-        'b->s::c6' : np.real(c6)
+        'b->s::c1' : np.real(prefactor * c1),
+        'b->s::c2' : np.real(prefactor * c2),
+        'b->s::c3' : np.real(prefactor * c3),
+        'b->s::c4' : np.real(prefactor * c4),
+        'b->s::c5' : np.real(prefactor * c5),
+        'b->s::c6' : np.real(prefactor * c6)
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 
 # semileptonic operators
@@ -1382,30 +1382,30 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
     ind = ddll.replace('l_','').replace('nu_','')
     ind2 = ddll.replace('l_','').replace('nu_','')[2::]
     e = sqrt(4* pi * parameters['alpha_e'])
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        'b->s' + ind2 + '::Re{c9}'   : np.real((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + '::Im{c9}'   : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
-        'b->s' + ind2 + "::Re{c9'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Im{c9'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
-        'b->s' + ind2 + "::Re{c10}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Im{c10}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10' ]),
-        'b->s' + ind2 + "::Re{c10'}" : np.real((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Im{c10'}" : np.imag((16 * pi**2) / e**2 * C['F' + ind + '10p']),
-        'b->s' + ind2 + "::Re{cS}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Im{cS}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
-        'b->s' + ind2 + "::Re{cS'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Im{cS'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
-        'b->s' + ind2 + "::Re{cP}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Im{cP}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
-        'b->s' + ind2 + "::Re{cP'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Im{cP'}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
-        'b->s' + ind2 + "::Re{cT}"   : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Im{cT}"   : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
-        'b->s' + ind2 + "::Re{cT5}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
-        'b->s' + ind2 + "::Im{cT5}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
+        'b->s' + ind2 + '::Re{c9}'   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + '::Im{c9}'   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
+        'b->s' + ind2 + "::Re{c9'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Im{c9'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
+        'b->s' + ind2 + "::Re{c10}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Im{c10}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10' ]),
+        'b->s' + ind2 + "::Re{c10'}" : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Im{c10'}" : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + '10p']),
+        'b->s' + ind2 + "::Re{cS}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Im{cS}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'S'  ]),
+        'b->s' + ind2 + "::Re{cS'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Im{cS'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Sp' ]),
+        'b->s' + ind2 + "::Re{cP}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Im{cP}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'P'  ]),
+        'b->s' + ind2 + "::Re{cP'}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Im{cP'}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'Pp' ]),
+        'b->s' + ind2 + "::Re{cT}"   : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Im{cT}"   : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T'  ]),
+        'b->s' + ind2 + "::Re{cT5}"  : np.real(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
+        'b->s' + ind2 + "::Im{cT5}"  : np.imag(prefactor * (16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 def JMS_to_FormFlavor_lep(C, dd):
     """From JMS to semileptonic Fierz basis for Classes V.
@@ -1597,16 +1597,16 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
     e = sqrt(4 * pi * parameters['alpha_e'])
     gs = sqrt(4 * pi * parameters['alpha_s'])
     mb = parameters['m_b']
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
     dic = {
-        "b->s::Re{c7}"  : np.real(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Im{c7}"  : np.imag(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
-        "b->s::Re{c7'}" : np.real(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::Im{c7'}" : np.imag(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
-        "b->s::c8"      : np.real(16 * pi**2 / mb / gs * C["F8g"      + dd]),
-        "b->s::c8'"     : np.real(16 * pi**2 / mb / gs * C["F8pg"     + dd])
+        "b->s::Re{c7}"  : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Im{c7}"  : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
+        "b->s::Re{c7'}" : np.real(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::Im{c7'}" : np.imag(prefactor * 16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
+        "b->s::c8"      : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8g"      + dd]),
+        "b->s::c8'"     : np.real(prefactor * 16 * pi**2 / mb / gs * C["F8pg"     + dd])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return dic
 
 
 def JMS_to_FormFlavor_chrom(C, qq, parameters):
-- 
2.43.0


From 6d9808a9974eb33e758da1121f3da033ff967d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 07/20] fix: FormFlavor s->d nu nu coefficients do not depend
 on the b->q call

---
 wilson/translate/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 1b9e393..7dd436a 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1424,12 +1424,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From e62cdbf19db9198c5e23e82c44c9cb5090ee3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 08/20] fix: FormFlavor lepton dipole CAL is normalised to e,
 not gs

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 7dd436a..585f81b 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1628,7 +1628,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 2e1dd65b1d3b5b3ba37e2ed3e97eb5c202fc529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 09/20] fix: FormFlavor cucu coefficients are all complex
 conjugated

---
 wilson/translate/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 585f81b..a60a4f2 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() + 1 / 2 * C["3" + 2*qq].conjugate(),
             'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
             'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq],
+            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From 8e3808a34fdbb20f2d630c0bd2bc85e8ddf43148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 10/20] fix: running SMEFT coefficients ee, qqql keep their
 index symmetries

---
 wilson/run/smeft/rge.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..1bf67da 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -9,12 +9,30 @@ from wilson.util import smeftutil
 import numpy as np
 
 
+def _beta(C, newphys=True):
+    """Beta functions of all parameters and Wilson coefficients as dictionary
+    of arrays with the index symmetries of the operators.
+
+    The beta functions of `ee` and `qqql` returned by `beta.beta` have to be
+    contracted with the operators: they lack their symmetries under
+    permutations of the flavour indices that stem from Fierz identities."""
+    b = beta.beta(C, newphys=newphys)
+    ee = b['ee']
+    b['ee'] = (ee + ee.transpose(2, 1, 0, 3)) / 2
+    qqql = b['qqql']
+    # projection on C_prst + C_rpst = C_sprt + C_srpt
+    b['qqql'] = (4 * qqql + 2 * qqql.transpose(2, 1, 0, 3)
+                 + qqql.transpose(1, 2, 0, 3) + qqql.transpose(2, 0, 1, 3)
+                 - qqql.transpose(1, 0, 2, 3) - qqql.transpose(0, 2, 1, 3)) / 6
+    return b
+
+
 def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
     """Solve the SMEFT RGEs in the leading log approximation.
 
     Input C_in and output C_out are dictionaries of arrays."""
     C_out = deepcopy(C_in)
-    b = beta.beta(C_out, newphys=newphys)
+    b = _beta(C_out, newphys=newphys)
     for k, C in C_out.items():
         C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)
     return C_out
@@ -23,8 +41,8 @@ def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
 def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
     def fun(t0, y):
-        return beta.beta_array(C=smeftutil.C_array2dict(y.view(complex)),
-                               newphys=newphys).view(float) / (16 * pi**2)
+        b = _beta(smeftutil.C_array2dict(y.view(complex)), newphys=newphys)
+        return smeftutil.C_dict2array(b).view(float) / (16 * pi**2)
     y0 = smeftutil.C_dict2array(C_in).view(float)
     sol = solve_ivp(fun=fun,
                     t_span=(log(scale_in), log(scale_out)),
-- 
2.43.0


From fc57bc4821cf1717ca4a31165e6cdbf52b2e1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 11/20] fix: QED evolution in WET-3 where eigenvalues differ by
 one up to rounding

---
 wilson/run/wet/rge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..fbc944b 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -74,7 +74,8 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     K = np.linalg.inv(v) @ A.T @ v
     for i in range(K.shape[0]):
         for j in range(K.shape[1]):
-            if a[i] - a[j] != 1:
+            # the eigenvalues are known to floating-point accuracy only
+            if abs(a[i] - a[j] - 1) > 1e-7:
                 K[i, j] *= (eta_s**(a[j] + 1) - eta_s**a[i]) / (a[i] - a[j] - 1)
             else:
                 K[i, j] *= eta_s**a[i] * log(1 / eta_s)
-- 
2.43.0


From 75ff10227d89e0ad8324bb160192f695e31ea69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 12/20] fix: running in the WET uses the parameters option

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..89e48bf 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -196,7 +196,8 @@ class Wilson(ConfigurableClass):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
         return {'qed_order': self.get_option('qed_order'),
-                'qcd_order': self.get_option('qcd_order')}
+                'qcd_order': self.get_option('qcd_order'),
+                'parameters': self.parameters}
 
     def match_run(self, scale, eft, basis, sectors='all'):
         """Run the Wilson coefficients to a different scale
-- 
2.43.0


From ba043e971d4a625b2cd96153f23807723f29accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 13/20] fix: translation after running in the SMEFT uses the
 parameters option

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 89e48bf..d6d3130 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -237,7 +237,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From 8029e07793e094d444fdbfb52850f7805485102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 14/20] fix: SMEFT coefficients limited to sectors are not
 cached as complete

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index d6d3130..a70dcb6 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -238,7 +238,7 @@ class Wilson(ConfigurableClass):
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
                 wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
-                self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
+                self._set_cache(sectors, scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
                 # if SMEFT -> WET-x: match to WET at the EW scale
-- 
2.43.0


From 530441e681c693426ceeb5a63bcdd1f134d571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 15/20] fix: setting the parameters option leaves the caller's
 dictionary alone

---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index a70dcb6..cfa7a86 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # leave the caller's dictionary as it is
+            value['gamma'] = value.pop('delta')
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)  # leave the caller's dictionary as it is
+            value['gamma'] = value.pop('delta')
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From 3955a447282076c097ff6e4c4d0c3572f8a2120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 16/20] fix: the hash of a Wilson instance depends on option
 values

---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index cfa7a86..f62c635 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = {k: frozenset(v.items()) if isinstance(v, dict) else v
+                   for k, v in self._options.items()}
+        return hash((self.wc, frozenset(options.items())))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From 3aae0d5d0f12cfcb7e8af3df5dd077b1f7759759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 17/20] fix: sectors limit the result also where nothing has to
 be run

---
 wilson/classes.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index f62c635..4373a17 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -229,9 +229,11 @@ class Wilson(ConfigurableClass):
         mb = self.get_option('mb_matchingscale')
         mc = self.get_option('mc_matchingscale')
         if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale:
-            return self.wc  # nothing to do
+            return self._select_sectors(self.wc, sectors)  # nothing to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
+            # translators are not obliged to limit themselves to the sectors
+            wc_out = self._select_sectors(wc_out, sectors)
             self._set_cache(sectors, scale, eft, basis, wc_out)
             return wc_out
         if self.wc.eft == 'SMEFT':
@@ -284,6 +286,18 @@ class Wilson(ConfigurableClass):
         else:
             raise ValueError(f"Running from {wet.eft} to {eft} not implemented")
 
+    @staticmethod
+    def _select_sectors(wc, sectors):
+        """Discard WET Wilson coefficients not belonging to the sectors."""
+        if sectors == 'all' or wc.eft == 'SMEFT':
+            return wc
+        keys = {k for sector, wcs in wcxf.Basis[wc.eft, wc.basis].sectors.items()
+                if sector in sectors for k in wcs}
+        if keys.issuperset(wc.values):
+            return wc
+        return wcxf.WC(eft=wc.eft, basis=wc.basis, scale=wc.scale,
+                       values={k: v for k, v in wc.values.items() if k in keys})
+
     def clear_cache(self):
         self._cache = {}
 
-- 
2.43.0


From f682c51db1774d1995fb28cb0365f98156a0df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 18/20] fix: SMEFTsim cards keep the sign of real diagonal
 coefficients

---
 wilson/wcxf/converters/smeftsim.py | 86 +++++++++++++++---------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..4fe868f 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -748,48 +748,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11') * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22') * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33') * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11') * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22') * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33') * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11') * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22') * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33') * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11') * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22') * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33') * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11') * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22') * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33') * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11') * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22') * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33') * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11') * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22') * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33') * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -967,7 +967,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333') * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
@@ -2712,66 +2712,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11')* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22')* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33')* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33')* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33')* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33')* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11')* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22')* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33')* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11')* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22')* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33')* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11')* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22')* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33')* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 04363ea0483018ad7da1e2d28aede98dafc7c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 19/20] fix: the WET operators with the flavour of the
 conjugate sector run as conjugates

VddLL_1231 and VddRR_1231 annihilate and create what the Hermitian
conjugates of the other operators of the sector sb do.
---
 wilson/run/wet/rge.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index fbc944b..a309534 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -86,6 +86,9 @@ qG = ['uG', 'dG']
 qgamma = ['ugamma', 'dgamma']
 lgamma = ['egamma', 'nugamma']
 G3 = ['G', 'Gtilde']
+# operators with the flavour quantum numbers of the Hermitian conjugates of
+# the other operators in the sector: their complex conjugate coefficients run
+conjugate = ['VddLL_1231', 'VddRR_1231']
 
 
 def get_m(dipole_key):
@@ -139,7 +142,8 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
     if perm_keys != 'all':
         # remove disallowed keys if necessary
         keylist = np.asarray(keylist)[perm_keys]
-    C_input = np.array([C_in.get(key, 0) for key in keylist])
+    C_input = np.array([np.conj(C_in.get(key, 0)) if key in conjugate
+                        else C_in.get(key, 0) for key in keylist])
     if np.count_nonzero(C_input) == 0 or classname == 'inv':
         # nothing to do for SM-like WCs or RG invariant operators
         C_result = C_input
@@ -159,5 +163,6 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         C_out = (Us + Ue) @ C_scaled
         C_result = [C_out[i] / scale_C(key, p_out) for i, key in enumerate(keylist)]
     for j in range(len(C_result)):
-        Cdictout[keylist[j]] = C_result[j]
+        key = keylist[j]
+        Cdictout[key] = np.conj(C_result[j]) if key in conjugate else C_result[j]
     return Cdictout
-- 
2.43.0


From 2aea753128af464d787d5ee88a1fe534e1e1856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 20/20] fix: the three-gluon operators run in the normalization
 the code uses

The coefficients of G and Gtilde are multiplied by g_s for the evolution,
like those of the dipole operators, so that the diagonal elements of the
anomalous dimension matrix have one beta_0 less.
---
 wilson/run/wet/adm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/run/wet/adm.py b/wilson/run/wet/adm.py
index 5801b35..2704e0c 100644
--- a/wilson/run/wet/adm.py
+++ b/wilson/run/wet/adm.py
@@ -2027,8 +2027,8 @@ def adm_e_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
 def adm_s_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
     """1-loop QCD anomalous dimension matrix for sector dF0"""
     b0g = _b0g(f)
-    return np.array([[-3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
-            [0, -3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
+    return np.array([[-4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
+            [0, -4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
             [0, 0, -80/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, -2/3, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
-- 
2.43.0

