From 9d740013932c8742325fe83ca3c7b84da4205c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 01/23] fix: Time normalization of negative microseconds,
 seconds and months

The negative branches rounded exact multiples away from zero (so e.g.
-86400 seconds or -12 months left an invalid field), and the microsecond
branch used the seconds field.
---
 src/base/TimeObj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..9aa1adb 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -185,7 +185,7 @@ void Time::NormalizeTime() {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = - (999999 - m_iMicroSecond) / 1000000;
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
@@ -196,7 +196,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = - (86399 - m_iSecond) / 86400;
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -207,7 +207,7 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = - (11 - m_iMonth) / 12;
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
-- 
2.43.0


From 5e8783f990b9268aefcfb33e145c085f132fc1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 02/23] fix: use the Gregorian leap year rule in the standard
 calendar

The rule tested for divisibility by 1000, so 1900 was a leap year and
2000 was not.
---
 src/base/TimeObj.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 9aa1adb..e6bcac9 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -21,6 +21,16 @@
 
 ///////////////////////////////////////////////////////////////////////////////
 
+///	<summary>
+///		Determine if the given year is a leap year in the standard
+///		(Gregorian) calendar.
+///	</summary>
+static inline bool IsLeapYear(int iYear) {
+	return (((iYear % 4) == 0) && ((iYear % 100) != 0)) || ((iYear % 400) == 0);
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 bool Time::operator==(const Time & time) const {
 	if ((m_eCalendarType != time.m_eCalendarType) ||
 	    (m_eTimeType     != time.m_eTimeType)     ||
@@ -135,7 +145,7 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -174,7 +184,7 @@ void Time::NormalizeTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -225,7 +235,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +255,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From f85a997a5a12abc699bfacafcf360900a398ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 03/23] fix: leap year test in Time normalization after months
 carry into years

The number of days in February was determined from the year before the
carry of months into years.
---
 src/base/TimeObj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index e6bcac9..8cafdc6 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -226,6 +226,11 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Adjust number of days per month
+		if (m_eCalendarType == CalendarStandard) {
+			nDaysPerMonth[1] = (IsLeapYear(m_iYear))?(29):(28);
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
-- 
2.43.0


From e32b85b1582436c9adb3bc9a758a3fcf5e4d642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 04/23] fix: orientation of vector components at the south pole

The special case at the centre of the south polar panel negated only one
component, which reversed orientation and agreed with neither limit of the
general formula (the longitude assigned to the pole there is pi).
---
 src/atm/CubedSphereTrans.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..42d5dc3 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -399,10 +399,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -563,10 +564,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +657,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 83a892a8307da51f919ed10926ea66c568da7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 05/23] fix: VecTransRLLFromABP divided by zero at the poles

---
 src/atm/CubedSphereTrans.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 42d5dc3..9dbab4a 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -483,6 +483,17 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if (nP == 4) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
-- 
2.43.0


From bb3a90d611117e66b290a598000346c9def801ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 06/23] fix: copy tracers, not state twice, between stages of
 ARS222, ARS443, ARK232, GARK2 and SSP3(332)

---
 src/atm/TimestepSchemeARK232.cpp  | 4 ++--
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..ce50c33 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 5b93ba8095b0e66dc9beaea93f2458aa20b982df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 07/23] fix: first stage of ARK232 overwrote the start of the
 step and mistook its implicit argument

---
 src/atm/TimestepSchemeARK232.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index ce50c33..f2901a5 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
@@ -104,16 +104,12 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
-	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
-		1, 2, time, m_dImpCf[0][0] * dDeltaT);
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
 	pGrid->PostProcessSubstage(2, DataType_Tracers);
-*/
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
 	pGrid->CopyData(2, 3, DataType_Tracers);
-- 
2.43.0


From c6b77bccdb780f049ecaaf7df1bcb3ddf37d7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 08/23] fix: split explicit scheme skipped vertical dynamics
 and diffusion for small time steps

---
 src/atm/TimestepSchemeSplitExp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 99042af..5dfeb41 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -88,6 +88,9 @@ void TimestepSchemeSplitExp::Step(
 	// Compute the stiff time step based on CFL = 1 and c = 350.0 m/s
 	double dStiffDT = dZGridSpace / 350.0;
 	int ns = int (2.0 * dDeltaT / dStiffDT);
+	if (ns < 1) {
+		ns = 1;
+	}
 	//ns = 20;
 	//std::cout << "Number of small steps: " << ns << std::endl;
 
-- 
2.43.0


From 0cdc31e362bffd72977bd1f03c10a661a5534f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 09/23] fix: off-centred Strang step was inconsistent for
 off-centering strictly between 0 and 1

---
 src/atm/TimestepSchemeStrang.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/TimestepSchemeStrang.cpp b/src/atm/TimestepSchemeStrang.cpp
index 684f2e9..93b636c 100644
--- a/src/atm/TimestepSchemeStrang.cpp
+++ b/src/atm/TimestepSchemeStrang.cpp
@@ -57,8 +57,8 @@ TimestepSchemeStrang::TimestepSchemeStrang(
 
 	// Off-centering combination
 	m_dOffCenteringCombination.Allocate(2);
-	m_dOffCenteringCombination[0] = (2.0 - m_dOffCentering) / 2.0;
-	m_dOffCenteringCombination[1] = m_dOffCentering / 2.0;
+	m_dOffCenteringCombination[0] = 1.0 / (1.0 + m_dOffCentering);
+	m_dOffCenteringCombination[1] = m_dOffCentering / (1.0 + m_dOffCentering);
 
 	// Final carryover combination
 	m_dCarryoverFinal.Allocate(2);
-- 
2.43.0


From a46a6e0785a8022e17d44f8489e5f8ec333c248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 10/23] fix: use Gauss nodes, not Gauss-Lobatto nodes, in the
 9-point Gauss rule

---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From bd1d9da95f6724993d451a8b6237bb1630348ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 11/23] fix: refuse one-past-the-end data index when packing
 exchange buffers

---
 src/atm/GridPatch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..edf8162 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -1301,7 +1301,7 @@ void GridPatch::PackExchangeBuffer(
 
 	// State data
 	if (eDataType == DataType_State) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecStateNode.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecStateNode.size())) {
 			_EXCEPTIONT("Invalid state data instance.");
 		}
 
@@ -1310,7 +1310,7 @@ void GridPatch::PackExchangeBuffer(
 
 	// Tracer data
 	} else if (eDataType == DataType_Tracers) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecTracers.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecTracers.size())) {
 			_EXCEPTIONT("Invalid tracers data instance.");
 		}
 
@@ -1356,7 +1356,7 @@ void GridPatch::UnpackExchangeBuffer(
 
 	// State data
 	if (eDataType == DataType_State) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecStateNode.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecStateNode.size())) {
 			_EXCEPTIONT("Invalid state data instance.");
 		}
 
@@ -1365,7 +1365,7 @@ void GridPatch::UnpackExchangeBuffer(
 
 	// Tracer data
 	} else if (eDataType == DataType_Tracers) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecTracers.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecTracers.size())) {
 			_EXCEPTIONT("Invalid tracers data instance.");
 		}
 
-- 
2.43.0


From f140290d91957ecd1025619ecab3b47fa04157c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 12/23] fix: size receive buffers in doubles so that overruns
 are refused

---
 src/atm/Connectivity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/Connectivity.cpp b/src/atm/Connectivity.cpp
index 76e7da4..335d100 100644
--- a/src/atm/Connectivity.cpp
+++ b/src/atm/Connectivity.cpp
@@ -1028,7 +1028,7 @@ void ExchangeBufferRegistry::AttachRecvBuffers(int p) {
 			}
 
 			pExBuf->m_dRecvBuffer.SetSize(
-				pExBuf->GetMessageSize());
+				pExBuf->GetMessageSize() / sizeof(double));
 			pExBuf->m_dRecvBuffer.AttachToData(
 				m_vecRecvBuffers[p] + iPosition);
 
-- 
2.43.0


From 4ee26b350107a91d949d5d5e7e8eb0812fb3b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 13/23] fix: index the element-local metric by element node
 when updating vertical velocity on levels

StepNonhydrostaticPrimitive read m_dLocalContraMetric, an element-sized buffer,
with patch indices, i.e. beyond its end.
---
 src/atm/HorizontalDynamicsFEM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEM.cpp b/src/atm/HorizontalDynamicsFEM.cpp
index 58a264f..722f8c6 100644
--- a/src/atm/HorizontalDynamicsFEM.cpp
+++ b/src/atm/HorizontalDynamicsFEM.cpp
@@ -1430,11 +1430,11 @@ void HorizontalDynamicsFEM::StepNonhydrostaticPrimitive(
 
 					if (k == 0) {
 						dLocalUpdateUr =
-							- ( m_dLocalContraMetric(iA,iB,0,2)
+							- ( m_dLocalContraMetric(i,j,0,2)
 									* dLocalUpdateUa
-							  + m_dLocalContraMetric(iA,iB,0,4)
+							  + m_dLocalContraMetric(i,j,0,4)
 							  		* dLocalUpdateUb)
-							/ m_dLocalContraMetric(iA,iB,0,5);
+							/ m_dLocalContraMetric(i,j,0,5);
 
 					} else if (k == nRElements-1) {
 						dLocalUpdateUr = 0.0;
-- 
2.43.0


From c0ff58e6a5ae5d79bab6bc5ff25817816ac836d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 14/23] fix: diffuse the reference state when asked for it in
 HorizontalDynamicsFEMV2

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index 479001c..ca40c8b 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -1556,14 +1556,13 @@ void HorizontalDynamicsFEMV2::ApplyVectorHyperdiffusion(
 			pPatch->GetContraMetric2DB();
 
 		DataArray4D<double> & dataInitial =
-			pPatch->GetDataState(iDataInitial, DataLocation_Node);
+			(fApplyToRefState)?
+			(pPatch->GetReferenceState(DataLocation_Node)):
+			(pPatch->GetDataState(iDataInitial, DataLocation_Node));
 
 		DataArray4D<double> & dataUpdate =
 			pPatch->GetDataState(iDataUpdate, DataLocation_Node);
 
-		DataArray4D<double> & dataRef =
-			pPatch->GetReferenceState(DataLocation_Node);
-
 		// Element grid spacing and derivative coefficients
 		const double dElementDeltaA = pPatch->GetElementDeltaA();
 		const double dElementDeltaB = pPatch->GetElementDeltaB();
-- 
2.43.0


From ff1235af3824adbbd376da5a365ab1c68cef7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 15/23] fix: give the top interface its Rayleigh friction
 strength on Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..cc8ae0b 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
-- 
2.43.0


From 6ea18596c96e4ea3b1300df4664a8837cd4032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 16/23] fix: evaluate reference tracers on Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index cc8ae0b..47bf2fe 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -612,7 +612,8 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 				m_dataZLevels[i][j][k],
 				m_dataLon[i][j],
 				m_dataLat[i][j],
-				dPointwiseRefState);
+				dPointwiseRefState,
+				dPointwiseRefTracers);
 
 			eqns.ConvertComponents(
 				phys, dPointwiseRefState, dPointwiseRefTracers);
@@ -661,9 +662,9 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 				m_dataZInterfaces[i][j][k],
 				m_dataLon[i][j],
 				m_dataLat[i][j],
-				dPointwiseRefState);
+				dPointwiseRefState,
+				dPointwiseRefTracers);
 
-			DataArray1D<double> dPointwiseRefTracers;
 			eqns.ConvertComponents(
 				phys, dPointwiseRefState, dPointwiseRefTracers);
 
-- 
2.43.0


From 5e0777338143972e370e3fe30163a88140e64422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 17/23] fix: add a restart perturbation to the state on
 Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 47bf2fe..87f0446 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -741,16 +741,20 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(
-			phys, dPointwiseState, dPointwiseTracers);
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+		// Perturbation of potential temperature, weighted by density
+		if (eqns.GetType() == EquationSet::PrimitiveNonhydrostaticEquations) {
+			dPointwiseState[2] *= m_datavecStateNode[iDataIndex][4][i][j][k];
+		}
+#endif
 
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateNode[iDataIndex][c][i][j][k] = dPointwiseState[c];
+			m_datavecStateNode[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 
 		// Evaluate tracers
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
-			m_datavecTracers[iDataIndex][c][i][j][k] = dPointwiseTracers[c];
+			m_datavecTracers[iDataIndex][c][i][j][k] += dPointwiseTracers[c];
 		}
 	}
 	}
@@ -770,10 +774,15 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(phys, dPointwiseState, dPointwiseTracers);
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+		// Perturbation of potential temperature, weighted by density
+		if (eqns.GetType() == EquationSet::PrimitiveNonhydrostaticEquations) {
+			dPointwiseState[2] *= m_datavecStateREdge[iDataIndex][4][i][j][k];
+		}
+#endif
 
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateREdge[iDataIndex][c][i][j][k] = dPointwiseState[c];
+			m_datavecStateREdge[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 	}
 	}
-- 
2.43.0


From e1f3e5e713e0c98db4f82aac3e545567353d0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 18/23] fix: do not read a density component in perturbing
 shallow water

---
 src/atm/GridPatchCSGLL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..2aa35a0 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -992,7 +992,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
         
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && (!fIs2DEquationSet)) {
                 dataStateNode(c,i,j,k) +=
                     dataStateNode(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
@@ -1070,7 +1070,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && (!fIs2DEquationSet)) {
                 dataStateREdge(c,i,j,k) +=
                     dataStateREdge(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
-- 
2.43.0


From ecdb3e5b8ff173b3379764f0371d1b5c9e10a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 19/23] fix: a run started from a restart file failed resetting
 the communication timer

---
 src/base/FunctionTimer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..c1a058f 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -157,13 +157,10 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 
 	iter = m_mapGroupData.find(szName);
 
-	// Retrieve existing group record
+	// Erase the group record, if any; a group that has not been timed yet
+	// (such as communication, when starting from a restart file) has none
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From 6b4415bf062433d9ca0a4e24718d593dd098ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 20/23] fix: a Cartesian XZ slice became a three-dimensional
 grid when restarted from a file

---
 src/atm/GridCartesianGLL.cpp | 1 -
 src/atm/GridGLL.cpp          | 1 +
 src/atm/GridGLL.h            | 2 +-
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..bcbc1af 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -52,7 +52,6 @@ void GridCartesianGLL::DefineParameters() {
 	// Add parameters for GridCartesianGLL
 	m_dcGridParameters.PushDataChunk(&m_dGDim);
 	m_dcGridParameters.PushDataChunk(&m_dRefLat);
-	//m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	GridGLL::DefineParameters();
diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..0290ace 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -43,6 +43,7 @@ void GridGLL::DefineParameters() {
 	// Initialize the GridParameters relevant to GridGLL
 	m_dcGridParameters.PushDataChunk(&m_nHorizontalOrder);
 	m_dcGridParameters.PushDataChunk(&m_nVerticalOrder);
+	m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	Grid::DefineParameters();
diff --git a/src/atm/GridGLL.h b/src/atm/GridGLL.h
index 8527b36..40b2ee4 100644
--- a/src/atm/GridGLL.h
+++ b/src/atm/GridGLL.h
@@ -237,7 +237,7 @@ public:
 	///	<summary>
 	///		2D Cartesian flag
 	///	</summary>
-	bool m_fCartesianXZ = false;
+	DataStruct<bool> m_fCartesianXZ;
 
 	///	<summary>
 	///		Get the 2D Cartesian flag
-- 
2.43.0


From 4043193b00694e73b8dd45384268c38eaccc2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 21/23] fix: runs started from a restart file ignored the
 physical constants of the test case

---
 src/atm/Model.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..fcd6c50 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,23 +236,15 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
-
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate physical constants (these are not part of a restart file)
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Initialize the topography and data
+	// Initialize the topography and data from TestCase
+	if (!m_fGridFromRestartFile) {
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
-	}
-	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
-	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
-
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Initialize the topography and data
+	// Evaluate data from TestCase if perturbation is needed on restart
+	} else if (m_fRestartPerturbation) {
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
 }
-- 
2.43.0


From a10ec242af289fd3d215ca209505096813ac132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 22/23] fix: a run restarted from a file lost the vertical
 stretching of its grid

---
 src/atm/Grid.cpp                   |  3 ++-
 src/atm/Grid.h                     | 20 ++++++++++++++++++--
 src/atm/OutputManagerComposite.cpp |  1 +
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..f070838 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -44,7 +44,8 @@ Grid::Grid(
 	m_fInitialized(false),
 	m_model(model),
 	m_fBlockParallelExchange(false),
-	m_pVerticalStretchF(NULL)
+	m_pVerticalStretchF(NULL),
+	m_fVerticalCoordinateFromFile(false)
 { }
 
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/src/atm/Grid.h b/src/atm/Grid.h
index 5d8f23a..319d57f 100644
--- a/src/atm/Grid.h
+++ b/src/atm/Grid.h
@@ -176,8 +176,11 @@ protected:
 	///	</summary>
 	virtual void Initialize() {
 
-		// Initialize the vertical coordinate
-		InitializeVerticalCoordinate();
+		// Initialize the vertical coordinate, unless it has been read
+		// from a restart file
+		if (!m_fVerticalCoordinateFromFile) {
+			InitializeVerticalCoordinate();
+		}
 
 		// Set the grid as initialized
 		m_fInitialized = true;
@@ -605,6 +608,14 @@ public:
 		return m_dcGridPatchData;
 	}
 
+	///	<summary>
+	///		Indicate that the vertical coordinate (including its stretching)
+	///		has been read from a restart file.
+	///	</summary>
+	void SetVerticalCoordinateFromFile() {
+		m_fVerticalCoordinateFromFile = true;
+	}
+
 public:
 	///	<summary>
 	///		Get a reference to the model.
@@ -1067,6 +1078,11 @@ protected:
 	///	</summary>
 	DataArray1D<int> m_vecVarsAtLocation;
 
+	///	<summary>
+	///		Flag indicating the vertical coordinate is from a restart file.
+	///	</summary>
+	bool m_fVerticalCoordinateFromFile;
+
 	///	<summary>
 	///		Flag indicating whether or not a reference state is available.
 	///	</summary>
diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..c81e330 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -478,6 +478,7 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridPatchData.GetPointer());
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
+	m_grid.SetVerticalCoordinateFromFile();
 
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
-- 
2.43.0


From 28e887d8ce4d5abe75796ac5b93ed9d2e873455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 23/23] fix: refuse restart files that end early

---
 src/atm/OutputManagerComposite.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index c81e330..a4b7e2d 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -466,6 +466,10 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridParameters.GetPointer());
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Restart file \"%s\" is truncated",
+			strFileName.c_str());
+	}
 
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
@@ -478,6 +482,10 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridPatchData.GetPointer());
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Restart file \"%s\" is truncated",
+			strFileName.c_str());
+	}
 	m_grid.SetVerticalCoordinateFromFile();
 
 	// Distribute GridPatches to processors
@@ -569,6 +577,12 @@ Time OutputManagerComposite::Input(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
 	}
 
+	// Verify that all data was read
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Restart file \"%s\" is truncated",
+			strFileName.c_str());
+	}
+
 	// Close the file
 	ifsActiveInput.close();
 
-- 
2.43.0

