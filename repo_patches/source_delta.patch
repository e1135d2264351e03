From 3c4ac809b1af32e1e34b55e6afd284001c79f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 1/9] fix: do not read VevOrder past its end when embedding a
 VEV

---
 src/models/ClassPotentialOrigin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..e1717d7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3515,7 +3515,7 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
+  std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; i++)
   {
     double checkgauge = 0;
@@ -3523,7 +3523,8 @@ void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10 and count < VevOrder.size() and
+        i == VevOrder[count]) // true for doublet vevs
     {
       sol.at(count) = 0;
       count += 1;
@@ -3971,7 +3972,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 8ffab7c7c1ca19b0d3601ce77c964b2b5aa411f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 2/9] fix: derivatives of the scalar masses are taken at the
 mass matrix

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index e1717d7..1840edf 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2424,7 +2424,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp, diff);
+  auto MassMatrix = HiggsMassMatrix(v, Temp);
 
   double ZeroMass = std::pow(10, -5);
 
-- 
2.43.0


From 5741d8809e81737fbc287e53c2ac70adf0a5972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 3/9] fix: temperature derivative of the one-loop potential
 misses the thermal masses' own dependence

---
 src/models/ClassPotentialOrigin.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 1840edf..dc37469 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3212,7 +3212,23 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
           VDebye += -std::pow(GaugeMassesZeroTempVec[k], 1.5);
       }
 
+      // the thermal masses depend on the temperature as well
+      double VDebyeMasses = 0;
+      for (std::size_t k = 0; k < NHiggs; k++)
+      {
+        if (HiggsMassesVec[k] > 0)
+          VDebyeMasses += 1.5 * HiggsMassesVec.at(k + NHiggs) *
+                          std::pow(HiggsMassesVec[k], 0.5);
+      }
+      for (std::size_t k = 0; k < NGauge; k++)
+      {
+        if (GaugeMassesVec[k] > 0)
+          VDebyeMasses += 1.5 * GaugeMassesVec.at(k + NGauge) *
+                          std::pow(GaugeMassesVec[k], 0.5);
+      }
+
       VDebye *= -1.0 / (12 * M_PI);
+      VDebye += -Temp / (12 * M_PI) * VDebyeMasses;
       res += VDebye;
     }
   }
-- 
2.43.0


From 7c4ad6283b93e23898da67271e7276bc3a9b426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 4/9] fix: VEff keeps the requested order for a VEV-sized
 configuration

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index dc37469..6a4cf50 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2973,7 +2973,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From 200a82164b7dd9b5706ab32f9898bb5aa4fdccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 5/9] fix: thermal part of the field derivative for every field
 index

---
 src/models/ClassPotentialOrigin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 6a4cf50..2f01974 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -123,7 +123,7 @@ double Class_Potential_Origin::boson(double MassSquared,
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JbosonInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
@@ -151,7 +151,7 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JfermionInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
-- 
2.43.0


From e35c7bfd4d22143170601b1b4e5df7ae5a673763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 6/9] fix: field derivative of the Coleman-Weinberg term for
 negative squared masses

---
 src/models/ClassPotentialOrigin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 2f01974..4ebc8b7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -115,7 +115,7 @@ double Class_Potential_Origin::boson(double MassSquared,
                                      int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), cb, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (diff == 0)
@@ -143,7 +143,7 @@ double
 Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), C_CWcbFermion, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, C_CWcbFermion, diff);
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (Temp == 0) return res;
   if (diff == 0)
-- 
2.43.0


From f92a2f9c574d6b5feddf427321d819d2e2e97e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 7/9] fix: derivatives of the one-loop potential in the Parwani
 scheme

---
 src/models/ClassPotentialOrigin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 4ebc8b7..6dfddd6 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3073,12 +3073,12 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += GaugeMassesVec.at(k + NGauge) *
-               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesVec.at(k), Temp, C_CWcbGB, diff);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 2 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbGB, diff);
       }
       for (std::size_t k = 0; k < NQuarks; k++)
       {
@@ -3157,13 +3157,13 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesVec.at(k + NHiggs) *
-               boson(HiggsMassesVec[k], Temp, C_CWcbHiggs, 0);
+               boson(HiggsMassesVec[k], Temp, C_CWcbHiggs, 1);
         res += boson(HiggsMassesVec[k], Temp, C_CWcbHiggs, -1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += GaugeMassesVec.at(k + NGauge) *
-               boson(GaugeMassesVec[k], Temp, C_CWcbGB, 0);
+               boson(GaugeMassesVec[k], Temp, C_CWcbGB, 1);
         res += boson(GaugeMassesVec.at(k), Temp, C_CWcbGB, -1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
-- 
2.43.0


From 6b83188c9b34044fb49d474ddbbec234a1a6fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 8/9] fix: one-loop four-point integral with one vanishing and
 three distinct masses

---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 6dfddd6..dfe45b2 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -563,7 +563,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   }
 
   // 2) two of the three non-zero masses are equal
-  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
+  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0 and
+           (mbs == mcs or mbs == mds or mcs == mds))
   {
     if (mbs == mcs and mds != mbs)
     {
@@ -587,7 +588,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mbs - mcs) * (mbs - mcs));
     }
   }
-  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0)
+  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0 and
+           (mas == mcs or mas == mds or mcs == mds))
   {
     if (mas == mcs and mds != mas)
     {
@@ -611,7 +613,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mcs - mas) * (mcs - mas));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0)
+  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0 and
+           (mas == mbs or mas == mds or mbs == mds))
   {
     if (mas == mbs and mds != mas)
     {
@@ -635,7 +638,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mbs * (mas - mbs) * (mas - mbs));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0)
+  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0 and
+           (mas == mbs or mas == mcs or mbs == mcs))
   {
     if (mas == mbs and mcs != mas)
     {
-- 
2.43.0


From ac1c14c137dc4db1ac7144c2ca909569f82e914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:36 +0000
Subject: [PATCH 9/9] fix: derivative of the low-temperature expansion of the
 thermal functions

---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0

