From d1c8681c890f3f9657d515f9796173a4d26711a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 01/66] fix: distribute only initialized patch boxes over
 processors

---
 src/atm/Grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..09945bd 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -1046,8 +1046,8 @@ void Grid::DistributePatches() {
 	MPI_Comm_rank(MPI_COMM_WORLD, &nRank);
 
 	// Loop over all patches and initialize data
-	m_vecPatchProcessor.resize(m_aPatchBoxes.GetRows());
-	for (int n = 0; n < m_aPatchBoxes.GetRows(); n++) {
+	m_vecPatchProcessor.resize(m_nInitializedPatchBoxes);
+	for (int n = 0; n < m_nInitializedPatchBoxes; n++) {
 		int iPatchProcessor = n % nSize;
 		m_vecPatchProcessor[n] = iPatchProcessor;
 
-- 
2.43.0


From 0fd9e18d881b5f07e889f90274d52948763a2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 02/66] fix: composite output from processors without patches

---
 src/atm/OutputManagerComposite.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..bede83d 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -241,12 +241,10 @@ void OutputManagerComposite::Output(
 	if (nRank != 0) {
 
 		int nActivePatches = m_grid.GetActivePatchCount();
-		if (nActivePatches == 0) {
-			_EXCEPTIONT("No GridPatches on processor");
-		}
 
-		DataArray1D<MPI_Request> vecSendReqGeo(nActivePatches);
-		DataArray1D<MPI_Request> vecSendReqAcS(nActivePatches);
+		// NOTE: Processors without GridPatches have nothing to send
+		std::vector<MPI_Request> vecSendReqGeo(nActivePatches);
+		std::vector<MPI_Request> vecSendReqAcS(nActivePatches);
 
 		for (int i = 0; i < nActivePatches; i++) {
 			const GridPatch * pPatch = m_grid.GetActivePatch(i);
@@ -291,7 +289,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgGeo =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqGeo[0]),
+				vecSendReqGeo.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgGeo == MPI_ERR_IN_STATUS) {
@@ -301,7 +299,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgAcS =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqAcS[0]),
+				vecSendReqAcS.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgAcS == MPI_ERR_IN_STATUS) {
-- 
2.43.0


From a5c6e1d027414549ce319c5247e0526892088dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 03/66] fix: rescale interpolated vertical velocity with the
 metric of each node

---
 src/atm/GridPatchCSGLL.cpp        | 4 ++--
 src/atm/GridPatchCartesianGLL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..816f359 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1662,7 +1662,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1674,7 +1674,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..799b75d 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1793,7 +1793,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1805,7 +1805,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
-- 
2.43.0


From 228eb67424ea5b3859d609e95986e39e6c31e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 04/66] fix: DGBSV must check the leading dimension of the band
 matrix

---
 src/base/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index d015a04..dfcbade 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -161,8 +161,8 @@ int LAPACK::DGBSV(
 	int nKU
 ) {
 	// Check dimensions
-	if (dA.GetRows() < 2 * nKL + nKU + 1) {
-		_EXCEPTIONT("Matrix A has insufficient rows for DGBSV");
+	if (dA.GetColumns() < 2 * nKL + nKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBSV");
 	}
 	if (dBX.GetRows() < dA.GetRows()) {
 		_EXCEPTIONT("Matrix A / B dimension mismatch in DGBSV");
-- 
2.43.0


From aeb712f2dad403726c1d517bf8e21dc905803a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 05/66] fix: index order of node arrays in
 VerticalDynamicsFEMV2

---
 src/atm/VerticalDynamicsFEMV2.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..4ce9be1 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -901,14 +901,14 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 					dDeltaU -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUa;
 
 					dDeltaV -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUb;
@@ -1730,34 +1730,34 @@ void VerticalDynamicsFEMV2::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][i][iB+1][k];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][i][iB+1][k];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][i][iB+1][k];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][i][iB+1][k];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][i][iB+1][k];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][i][iB+1][k];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][i][iB+1][k];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][i][iB+1][k];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
@@ -4175,7 +4175,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
-- 
2.43.0


From eb9852bff35748abc3df7db88650d1d1de2b48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 06/66] fix: index order of node arrays in
 VerticalDynamicsSchur

---
 src/atm/VerticalDynamicsSchur.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 0d6688f..9b56279 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -1925,34 +1925,34 @@ void VerticalDynamicsSchur::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][k][i][iB+1];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][k][i][iB+1];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][k][i][iB+1];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][k][i][iB+1];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][k][i][iB+1];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][k][i][iB+1];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][k][i][iB+1];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][k][i][iB+1];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][k][i][iB+1];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][k][i][iB+1];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][k][i][iB+1];
 			}
 		}
@@ -3758,7 +3758,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
-- 
2.43.0


From 9810340413b1616629331bf79521941c93835a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 07/66] fix: borrow whole seconds from negative microseconds in
 Time

---
 src/base/TimeObj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..7a731f7 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -185,7 +185,7 @@ void Time::NormalizeTime() {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = - ((999999 - m_iMicroSecond) / 1000000);
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
-- 
2.43.0


From d823bbc72e1a69b70a235882d6ad0038a0ef88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 08/66] fix: borrow exact numbers of days and years in Time

---
 src/base/TimeObj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 7a731f7..a391306 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -196,7 +196,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = - ((86399 - m_iSecond) / 86400);
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -207,7 +207,7 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = - ((11 - m_iMonth) / 12);
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
-- 
2.43.0


From ca09df54554282d01b7cffebcd179215f6d0d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 09/66] fix: leap years of the standard calendar

---
 src/base/TimeObj.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index a391306..aeb2cc5 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -125,6 +125,12 @@ bool Time::operator>(const Time & time) const {
 
 ///////////////////////////////////////////////////////////////////////////////
 
+static bool IsLeapYear(int iYear) {
+	return ((iYear % 4) == 0) && (((iYear % 100) != 0) || ((iYear % 400) == 0));
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void Time::VerifyTime() {
 
 	// Calendar with no leap years
@@ -135,7 +141,7 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -173,12 +179,6 @@ void Time::NormalizeTime() {
 		int nDaysPerMonth[]
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
-		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
-				nDaysPerMonth[1] = 29;
-			}
-		}
-
 		// Add seconds
 		int nAddedSeconds = 0;
 		if (m_iMicroSecond >= 1000000) {
@@ -216,6 +216,13 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Number of days per month in the resulting year
+		if (m_eCalendarType == CalendarStandard) {
+			if (IsLeapYear(m_iYear)) {
+				nDaysPerMonth[1] = 29;
+			}
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
@@ -225,7 +232,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +252,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From f3d2643ae86624064f23c6a81e8109a139a4cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 10/66] fix: do not turn the days of a time delta into months

---
 src/base/TimeObj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index aeb2cc5..f3e5095 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -216,6 +216,11 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Days of a time delta are not months, which differ in length
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Number of days per month in the resulting year
 		if (m_eCalendarType == CalendarStandard) {
 			if (IsLeapYear(m_iYear)) {
-- 
2.43.0


From 791b4ed97bf1f24a4366f8806c402af1e167cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 11/66] fix: nodes of the ninth order Gauss quadrature

---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From aa8b1646f5859df057c9a11a1a7be61c9b165d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:39 +0000
Subject: [PATCH 12/66] fix: case of --vstretch on Cartesian grids

---
 src/atm/TempestInitialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..40f785b 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -666,7 +666,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
+		STLStringHelper::ToLower(vars.strVerticalStretch);
 		if (vars.strVerticalStretch == "uniform") {
 
 		} else if (vars.strVerticalStretch == "cubic") {
-- 
2.43.0


From deb1be16d329fe8c20853e5e6157f8d3056db602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 13/66] fix: resetting a group timer that recorded nothing

---
 src/base/FunctionTimer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..7494829 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -157,13 +157,9 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 
 	iter = m_mapGroupData.find(szName);
 
-	// Retrieve existing group record
+	// Erase existing group record; nothing to do if nothing was recorded
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From 48981c12bdf2ecd675c1fa21f48fb92fd62ece37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 14/66] fix: copy tracers between the stages of the IMEX
 schemes

---
 src/atm/TimestepSchemeARK232.cpp  | 4 ++--
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..ce50c33 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From ea44216d282ee0cc9c4cbe49bfd1d8df1bd90a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 15/66] fix: first stage of ARK232 overwrote the state it
 starts from

---
 src/atm/TimestepSchemeARK232.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index ce50c33..b0c4ff6 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
@@ -104,16 +104,13 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
-	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
-		1, 2, time, m_dImpCf[0][0] * dDeltaT);
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
 	pGrid->PostProcessSubstage(2, DataType_Tracers);
-*/
+
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
 	pGrid->CopyData(2, 3, DataType_Tracers);
-- 
2.43.0


From 0b26f3a3a76fa975e64f39508a2819ba2b54904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 16/66] fix: take at least one vertical substep in the split
 explicit scheme

---
 src/atm/TimestepSchemeSplitExp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 99042af..5dfeb41 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -88,6 +88,9 @@ void TimestepSchemeSplitExp::Step(
 	// Compute the stiff time step based on CFL = 1 and c = 350.0 m/s
 	double dStiffDT = dZGridSpace / 350.0;
 	int ns = int (2.0 * dDeltaT / dStiffDT);
+	if (ns < 1) {
+		ns = 1;
+	}
 	//ns = 20;
 	//std::cout << "Number of small steps: " << ns << std::endl;
 
-- 
2.43.0


From 1544d47b61c5ca5f5cc578a82e03dc97b89c7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 17/66] fix: set the vertical stretching function of restarted
 runs

---
 src/atm/TempestInitialize.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 40f785b..88d759d 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -576,6 +576,22 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		STLStringHelper::ToLower(vars.strVerticalStretch);
+		if (vars.strVerticalStretch == "uniform") {
+
+		} else if (vars.strVerticalStretch == "cubic") {
+			pGrid->SetVerticalStretchFunction(
+				new VerticalStretchCubic);
+
+		} else if (vars.strVerticalStretch == "pwlinear") {
+			pGrid->SetVerticalStretchFunction(
+				new VerticalStretchPiecewiseLinear);
+
+		} else {
+			_EXCEPTIONT("Invalid value for --vstretch");
+		}
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -693,6 +709,22 @@ void _TempestSetupCartesianModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		STLStringHelper::ToLower(vars.strVerticalStretch);
+		if (vars.strVerticalStretch == "uniform") {
+
+		} else if (vars.strVerticalStretch == "cubic") {
+			pGrid->SetVerticalStretchFunction(
+				new VerticalStretchCubic);
+
+		} else if (vars.strVerticalStretch == "pwlinear") {
+			pGrid->SetVerticalStretchFunction(
+				new VerticalStretchPiecewiseLinear);
+
+		} else {
+			_EXCEPTIONT("Invalid value for --vstretch");
+		}
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From 4e58b0b63f6a2687b83314dfc5d8437b26372c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 18/66] fix: m_fRestartPerturbation was not initialized

---
 src/atm/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..5e77100 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -33,6 +33,7 @@ Model::Model(
 	EquationSet::Type eEquationSetType
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
@@ -49,6 +50,7 @@ Model::Model(
 	const EquationSet & eqn
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
@@ -67,6 +69,7 @@ Model::Model(
 	const UserDataMeta & metaUserData
 ) :
 	m_fGridFromRestartFile(false),
+	m_fRestartPerturbation(false),
 	m_pGrid(NULL),
 	m_pTimestepScheme(NULL),
 	m_pHorizontalDynamics(NULL),
-- 
2.43.0


From 9d0099f07033d856deb1789a3371e2976d9d57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 19/66] fix: physical constants of the test case in restarted
 runs

---
 src/atm/Model.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index 5e77100..1b55f1c 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -239,22 +239,19 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From 17a1c84d7566f6dacadf418c2ce7547c781a0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 20/66] fix: XZ flag of restarted Cartesian runs

---
 src/atm/TempestInitialize.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 88d759d..d89c393 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -705,10 +705,13 @@ void _TempestSetupCartesianModel(
 	} else {
 		AnnounceStartBlock("Constructing Grid from restart file");
 
-		Grid * pGrid = new GridCartesianGLL(model);
+		GridCartesianGLL * pGrid = new GridCartesianGLL(model);
 
 		pGrid->DefineParameters();
 
+		// NOTE: The XZ flag is not part of the restart file
+		pGrid->m_fCartesianXZ = fCartesianXZ;
+
 		// Set the vertical stretching function
 		STLStringHelper::ToLower(vars.strVerticalStretch);
 		if (vars.strVerticalStretch == "uniform") {
-- 
2.43.0


From f3c1b7b4d5244edad07fb34cbd48d375a5895e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 21/66] fix: refuse incomplete restart files

---
 src/atm/OutputManagerComposite.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index bede83d..3fb3572 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -448,7 +448,7 @@ Time OutputManagerComposite::Input(
 	// Read check bits
 	int iCheckInput;
 	ifsActiveInput.read((char *)(&iCheckInput), sizeof(int));
-	if (iCheckInput != m_iCheck) {
+	if ((!ifsActiveInput) || (iCheckInput != m_iCheck)) {
 		_EXCEPTION1("Invalid or incompatible input file \"%s\"",
 			strFileName.c_str());
 	}
@@ -465,6 +465,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Incomplete input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
 
@@ -477,6 +482,11 @@ Time OutputManagerComposite::Input(
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Incomplete input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
 
@@ -531,6 +541,19 @@ Time OutputManagerComposite::Input(
 		_EXCEPTIONT("ActiveInput::tellg() fail");
 	}
 
+	// Check that the file holds the data of all GridPatches
+	const int iLastPatch = m_grid.GetPatchCount() - 1;
+
+	ifsActiveInput.seekg(0, std::ios::end);
+	if (ifsActiveInput.tellg() !=
+		posRefFile
+			+ m_vecGridPatchByteLoc[iLastPatch][1]
+			+ m_vecGridPatchByteSize[iLastPatch][1]
+	) {
+		_EXCEPTION1("Incomplete or incompatible input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Load in GridPatch data from file
 	for (int i = 0; i < m_grid.GetActivePatchCount(); i++) {
 		GridPatch * pPatch = m_grid.GetActivePatch(i);
@@ -566,6 +589,11 @@ Time OutputManagerComposite::Input(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
 	}
 
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Error reading input file \"%s\"",
+			strFileName.c_str());
+	}
+
 	// Close the file
 	ifsActiveInput.close();
 
-- 
2.43.0


From 5a840a21d9e97dfda70c7ddb59c540ea8ec61352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 22/66] fix: write the check bits of restart files last and
 report write errors

---
 src/atm/OutputManagerComposite.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index 3fb3572..dab6da5 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -208,8 +208,11 @@ void OutputManagerComposite::Output(
 				+ m_vecGridPatchByteSize[i][0];
 		}
 
-		// Write check bits
-		m_ofsActiveOutput.write((const char *)(&m_iCheck), sizeof(int));
+		// Reserve space for check bits, which are written last so that
+		// partially written files are not accepted as input
+		const int iCheckIncomplete = 0;
+		m_ofsActiveOutput.write(
+			(const char *)(&iCheckIncomplete), sizeof(int));
 
 		// Write current time
 		const Time & timeCurrent = model.GetCurrentTime();
@@ -407,6 +410,17 @@ void OutputManagerComposite::Output(
 				(const char *)(&(m_vecRecvBuffer[0])),
 				m_vecGridPatchByteSize[iPatchIx][iDataType]);
 		}
+
+		// Write check bits
+		m_ofsActiveOutput.flush();
+		if (m_ofsActiveOutput) {
+			m_ofsActiveOutput.seekp(0);
+			m_ofsActiveOutput.write((const char *)(&m_iCheck), sizeof(int));
+			m_ofsActiveOutput.flush();
+		}
+		if (!m_ofsActiveOutput) {
+			_EXCEPTIONT("Error writing restart file");
+		}
 	}
 
 	// Barrier
-- 
2.43.0


From a35033d3ab0e949afd1f53b985c6d055d82fe48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 23/66] fix: add the restart perturbation on Cartesian grids
 instead of replacing the state

---
 src/atm/GridPatchCartesianGLL.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 799b75d..42131ed 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -730,7 +730,7 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 	for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
 	for (int k = 0; k < m_grid.GetRElements(); k++) {
 
-		// Evaluate pointwise state
+		// Evaluate pointwise state perturbations
 		test.EvaluatePointwisePerturbation(
 			m_grid.GetModel().GetPhysicalConstants(),
 			time,
@@ -740,16 +740,19 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(
-			phys, dPointwiseState, dPointwiseTracers);
-
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateNode[iDataIndex][c][i][j][k] = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if ((c == 2) && (nComponents > 4)) {
+				dPointwiseState[c] *=
+					m_datavecStateNode[iDataIndex][4][i][j][k];
+			}
+#endif
+			m_datavecStateNode[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 
-		// Evaluate tracers
+		// Evaluate tracer perturbations
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
-			m_datavecTracers[iDataIndex][c][i][j][k] = dPointwiseTracers[c];
+			m_datavecTracers[iDataIndex][c][i][j][k] += dPointwiseTracers[c];
 		}
 	}
 	}
@@ -759,7 +762,7 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 	for (int i = 0; i < m_box.GetATotalWidth(); i++) {
 	for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
 
-		// Evaluate pointwise state
+		// Evaluate pointwise state perturbations
 		test.EvaluatePointwisePerturbation(
 			phys,
 			time,
@@ -769,10 +772,14 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(phys, dPointwiseState, dPointwiseTracers);
-
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateREdge[iDataIndex][c][i][j][k] = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if ((c == 2) && (nComponents > 4)) {
+				dPointwiseState[c] *=
+					m_datavecStateREdge[iDataIndex][4][i][j][k];
+			}
+#endif
+			m_datavecStateREdge[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 	}
 	}
-- 
2.43.0


From 8408f235d80e430f73427830599f27d38e37cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 24/66] fix: vertical diffusion of velocity used the previous
 column's velocity

---
 src/atm/VerticalDynamicsFEM.cpp   | 6 ++++++
 src/atm/VerticalDynamicsFEMV2.cpp | 6 ++++++
 src/atm/VerticalDynamicsSchur.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..046118f 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -1060,6 +1060,12 @@ void VerticalDynamicsFEM::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity of this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 4ce9be1..7d36c23 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -1172,6 +1172,12 @@ void VerticalDynamicsFEMV2::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity of this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 9b56279..9cf5c2b 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -1171,6 +1171,12 @@ void VerticalDynamicsSchur::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity of this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
-- 
2.43.0


From dfb69bbb68d422296837acf9318b8833c63dc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 25/66] fix: orientation of vectors at the south pole in the
 cubed sphere transforms

---
 src/atm/CubedSphereTrans.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..42d5dc3 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -399,10 +399,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -563,10 +564,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +657,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 2d182af92dd70ba42d4933b4d91a4b8735be233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 26/66] fix: use the same longitude at the poles for positions
 and vectors

---
 src/atm/CubedSphereTrans.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 42d5dc3..30e25fe 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -231,7 +231,9 @@ void CubedSphereTrans::RLLFromXYP(
 
 		// North polar panel
 		case 4:
-			if (fabs(dX) > DBL_EPSILON) {
+			if ((fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+				lon = 0.0;
+			} else if (fabs(dX) > DBL_EPSILON) {
 				lon = atan2(dX, -dY);
 			} else if (dY <= 0.0) {
 				lon = 0.0;
@@ -243,7 +245,9 @@ void CubedSphereTrans::RLLFromXYP(
 
 		// South polar panel
 		case 5:
-			if (fabs(dX) > DBL_EPSILON) {
+			if ((fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+				lon = M_PI;
+			} else if (fabs(dX) > DBL_EPSILON) {
 				lon = atan2(dX, dY);
 			} else if (dY > 0.0) {
 				lon = 0.0;
-- 
2.43.0


From 0e64ff287d663f9e96d9b6b3f6ac7078fa783753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 27/66] fix: transform contravariant vectors to wind at the
 poles

---
 src/atm/CubedSphereTrans.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 30e25fe..4732cf5 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -487,6 +487,17 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if (nP == 4) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
-- 
2.43.0


From 564ed5b1b6889895d14871c550a286e613040c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 28/66] fix: evaluate Rayleigh friction at the top interface on
 Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 42131ed..23273d8 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
-- 
2.43.0


From d52f583f4d9f402206cf98cbdb3c6fbb4e51abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 29/66] fix: evaluate reference tracers on Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 23273d8..9485166 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -612,7 +612,8 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 				m_dataZLevels[i][j][k],
 				m_dataLon[i][j],
 				m_dataLat[i][j],
-				dPointwiseRefState);
+				dPointwiseRefState,
+				dPointwiseRefTracers);
 
 			eqns.ConvertComponents(
 				phys, dPointwiseRefState, dPointwiseRefTracers);
@@ -661,9 +662,9 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 				m_dataZInterfaces[i][j][k],
 				m_dataLon[i][j],
 				m_dataLat[i][j],
-				dPointwiseRefState);
+				dPointwiseRefState,
+				dPointwiseRefTracers);
 
-			DataArray1D<double> dPointwiseRefTracers;
 			eqns.ConvertComponents(
 				phys, dPointwiseRefState, dPointwiseRefTracers);
 
-- 
2.43.0


From d8abc18798d6a0ba05501daff08059b6c74ecb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 30/66] fix: Coriolis parameter on the sphere with an inclined
 rotation axis

---
 src/atm/GridPatchCSGLL.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 816f359..99b26bb 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -349,7 +349,10 @@ void GridPatchCSGLL::EvaluateGeometricTerms() {
 	for (int i = 0; i < m_box.GetATotalWidth(); i++) {
 	for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
 		m_dataCoriolisF(i,j) =
-			2.0 * phys.GetOmega() * sin(m_dataLat(i,j));
+			2.0 * phys.GetOmega()
+				* (sin(m_dataLat(i,j)) * cos(phys.GetAlpha())
+					- cos(m_dataLon(i,j)) * cos(m_dataLat(i,j))
+						* sin(phys.GetAlpha()));
 	}
 	}
 
-- 
2.43.0


From e366081a139faa2e226d64e42b25ced68bf98fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 31/66] fix: rescale only the vertical velocity in interpolated
 output, not the fourth tracer

---
 src/atm/GridPatchCSGLL.cpp        | 4 +++-
 src/atm/GridPatchCartesianGLL.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 99b26bb..6994dfb 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1650,7 +1650,9 @@ void GridPatchCSGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 9485166..50d4578 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1786,7 +1786,9 @@ void GridPatchCartesianGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
-- 
2.43.0


From 04107dfd4346bcd0ed0bb32e47c7824c4cd4c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 32/66] fix: output times of runs that do not start at midnight

---
 src/atm/OutputManagerReference.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..d766950 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -570,8 +570,13 @@ void OutputManagerReference::Output(
 
 	// Add new time
 	if (nRank == 0) {
-#pragma message "FIX: Doesn't give correct count of days"
-		double dTimeDays = (time - m_grid.GetModel().GetStartTime()) / 86400.0;
+		// Days since midnight of the date on which the simulation starts
+		const Time & timeStart = m_grid.GetModel().GetStartTime();
+		double dTimeDays =
+			((time - timeStart)
+				+ static_cast<double>(timeStart.GetSecond())
+				+ static_cast<double>(timeStart.GetMicroSecond()) * 1.0e-6)
+			/ 86400.0;
 		m_varTime->set_cur(m_ixOutputTime);
 		m_varTime->put(&dTimeDays, 1);
 	}
-- 
2.43.0


From 6db18829f2fb3728aeb2e4f7ae7f27c3a9ac965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 33/66] fix: stretched vertical coordinate of two-dimensional
 grids

---
 src/atm/GridGLL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..b7f7099 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -372,6 +372,8 @@ void GridGLL::InitializeVerticalCoordinate() {
 
 	// Initialize 
 	if (m_model.GetEquationSet().GetDimensionality() == 2) {
+		m_dREtaStretchLevels = m_dREtaLevels;
+		m_dREtaStretchInterfaces = m_dREtaInterfaces;
 		return;
 	}
 
-- 
2.43.0


From 69dbbb4266b4e9cb29569cf7589f76a93f1cb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 34/66] fix: first-order column interpolation to one point at
 or beyond the last element

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..0b7634b 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,9 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (l == 0) &&
+				(!fOnREdge) && (a != nFiniteElementsIn-1)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +131,9 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1) &&
+				(!fOnREdge) && (a != 0)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From f0f85f9739a32f63ab114400665ee2d21b65ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 35/66] fix: read the metric of the node itself for the
 vertical velocity at the ground on levels

---
 src/atm/HorizontalDynamicsFEM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEM.cpp b/src/atm/HorizontalDynamicsFEM.cpp
index 58a264f..722f8c6 100644
--- a/src/atm/HorizontalDynamicsFEM.cpp
+++ b/src/atm/HorizontalDynamicsFEM.cpp
@@ -1430,11 +1430,11 @@ void HorizontalDynamicsFEM::StepNonhydrostaticPrimitive(
 
 					if (k == 0) {
 						dLocalUpdateUr =
-							- ( m_dLocalContraMetric(iA,iB,0,2)
+							- ( m_dLocalContraMetric(i,j,0,2)
 									* dLocalUpdateUa
-							  + m_dLocalContraMetric(iA,iB,0,4)
+							  + m_dLocalContraMetric(i,j,0,4)
 							  		* dLocalUpdateUb)
-							/ m_dLocalContraMetric(iA,iB,0,5);
+							/ m_dLocalContraMetric(i,j,0,5);
 
 					} else if (k == nRElements-1) {
 						dLocalUpdateUr = 0.0;
-- 
2.43.0


From 2e1f82a022d9c68876c28db8394dd5be6366b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 36/66] fix: boundary conditions at the walls of Cartesian
 boxes

---
 src/atm/GridCartesianGLL.cpp      |   5 +
 src/atm/GridPatchCartesianGLL.cpp | 288 +++++++++++++++++++++++++-----
 src/atm/GridPatchCartesianGLL.h   |   7 +
 3 files changed, 252 insertions(+), 48 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..fe70b35 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -611,6 +611,11 @@ void GridCartesianGLL::ApplyDSS(
 				pDataUpdate.AttachToData(&(dTopographyDeriv[0][0][0]));
 			}
 
+			// The halo beyond a wall is not exchanged
+			if (eDataType != DataType_State) {
+				pPatch->ExtendHaloAcrossWalls(pDataUpdate);
+			}
+
 			// Averaging DSS across patch boundaries
 			for (int k = 0; k < nRElements; k++) {
 
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 50d4578..7fee7ad 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -788,6 +788,60 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 //std::cout << "\n" << "End of EvaluateTestCase_Perturbation" << "\n";
 }
 
+///////////////////////////////////////////////////////////////////////////////
+void GridPatchCartesianGLL::ExtendHaloAcrossWalls(
+	DataArray3D<double> & data
+) const {
+	const int nAEnd = m_box.GetATotalWidth();
+	const int nBEnd = m_box.GetBTotalWidth();
+	const int nREnd = data.GetSize(2);
+
+	const int nGlobalAEnd = m_nHorizontalOrder * m_grid.GetABaseResolution();
+	const int nGlobalBEnd = m_nHorizontalOrder * m_grid.GetBBaseResolution();
+
+	// Left and right walls
+	const bool fLeft =
+		(m_grid.GetBoundaryCondition(Direction_Left)
+			!= Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetAGlobalInteriorBegin() == 0);
+	const bool fRight =
+		(m_grid.GetBoundaryCondition(Direction_Right)
+			!= Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetAGlobalInteriorEnd() == nGlobalAEnd);
+
+	for (int j = 0; j < nBEnd; j++) {
+	for (int k = 0; k < nREnd; k++) {
+		if (fLeft) {
+			data[0][j][k] = data[1][j][k];
+		}
+		if (fRight) {
+			data[nAEnd-1][j][k] = data[nAEnd-2][j][k];
+		}
+	}
+	}
+
+	// Bottom and top walls
+	const bool fBottom =
+		(m_grid.GetBoundaryCondition(Direction_Bottom)
+			!= Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetBGlobalInteriorBegin() == 0);
+	const bool fTop =
+		(m_grid.GetBoundaryCondition(Direction_Top)
+			!= Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetBGlobalInteriorEnd() == nGlobalBEnd);
+
+	for (int i = 0; i < nAEnd; i++) {
+	for (int k = 0; k < nREnd; k++) {
+		if (fBottom) {
+			data[i][0][k] = data[i][1][k];
+		}
+		if (fTop) {
+			data[i][nBEnd-1][k] = data[i][nBEnd-2][k];
+		}
+	}
+	}
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 #pragma message "TO DO test non-periodic BC on global alpha and beta boundaries"
 void GridPatchCartesianGLL::ApplyBoundaryConditions(
@@ -815,6 +869,104 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 //std::cout << m_box.GetAGlobalBegin() << "  " << m_box.GetAGlobalEnd() << std::endl;
 
+	// Vertical velocity at nodes is needed to impose no-flux
+	const bool fHasWall =
+		(m_grid.GetBoundaryCondition(Direction_Right)
+			!= Grid::BoundaryCondition_Periodic) ||
+		(m_grid.GetBoundaryCondition(Direction_Top)
+			!= Grid::BoundaryCondition_Periodic) ||
+		(m_grid.GetBoundaryCondition(Direction_Left)
+			!= Grid::BoundaryCondition_Periodic) ||
+		(m_grid.GetBoundaryCondition(Direction_Bottom)
+			!= Grid::BoundaryCondition_Periodic);
+
+	if (!fHasWall) {
+		return;
+	}
+
+	if ((m_datavecStateNode[iDataIndex].GetSize(0) > WIx) &&
+		(m_grid.GetVarLocation(WIx) == DataLocation_REdge)
+	) {
+		const LinearColumnInterpFEM & opInterpREdgeToNode =
+			dynamic_cast<const GridGLL &>(m_grid).GetOpInterpREdgeToNode();
+
+		for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+		for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+			opInterpREdgeToNode.Apply(
+				&(m_datavecStateREdge[iDataIndex][WIx][i][j][0]),
+				&(m_datavecStateNode[iDataIndex][WIx][i][j][0]));
+		}
+		}
+	}
+
+	// The halo beyond a wall is not exchanged, so begin from the wall itself
+	for (int c = 0; c < m_datavecStateNode[iDataIndex].GetSize(0); c++) {
+		DataArray3D<double> dataNode;
+		dataNode.SetSize(
+			m_box.GetATotalWidth(),
+			m_box.GetBTotalWidth(),
+			m_datavecStateNode[iDataIndex].GetSize(3));
+		dataNode.AttachToData(&(m_datavecStateNode[iDataIndex][c][0][0][0]));
+		ExtendHaloAcrossWalls(dataNode);
+
+		DataArray3D<double> dataREdge;
+		dataREdge.SetSize(
+			m_box.GetATotalWidth(),
+			m_box.GetBTotalWidth(),
+			m_datavecStateREdge[iDataIndex].GetSize(3));
+		dataREdge.AttachToData(&(m_datavecStateREdge[iDataIndex][c][0][0][0]));
+		ExtendHaloAcrossWalls(dataREdge);
+	}
+
+	// Impose boundary conditions (no vertical velocity)
+	if (m_datavecStateNode[iDataIndex].GetSize(0) <= WIx) {
+		const Direction eDir[4] =
+			{Direction_Right, Direction_Top, Direction_Left, Direction_Bottom};
+		const bool fOnPatch[4] = {
+			m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex,
+			m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex,
+			m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex,
+			m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex};
+
+		for (int d = 0; d < 4; d++) {
+			const Grid::BoundaryCondition eBoundary =
+				m_grid.GetBoundaryCondition(eDir[d]);
+			if ((eBoundary == Grid::BoundaryCondition_Periodic) ||
+				(!fOnPatch[d])
+			) {
+				continue;
+			}
+
+			const bool fAlpha = (d % 2 == 0);
+			const int nEnd =
+				(fAlpha)?(m_box.GetATotalWidth()):(m_box.GetBTotalWidth());
+			const int ixHalo = (d < 2)?(nEnd - 1):(0);
+			const int ixWall = (d < 2)?(nEnd - 2):(1);
+			const int nAlong =
+				(fAlpha)?(m_box.GetBTotalWidth()):(m_box.GetATotalWidth());
+
+			for (int c = UIx; c <= VIx; c++) {
+				if ((eBoundary == Grid::BoundaryCondition_NoFlux) &&
+					(c != ((fAlpha)?(UIx):(VIx)))
+				) {
+					continue;
+				}
+				for (int s = 0; s < nAlong; s++) {
+				for (int k = 0; k < m_grid.GetRElements(); k++) {
+					DataArray4D<double> & data =
+						m_datavecStateNode[iDataIndex];
+					if (fAlpha) {
+						data[c][ixHalo][s][k] = - data[c][ixWall][s][k];
+					} else {
+						data[c][s][ixHalo][k] = - data[c][s][ixWall][k];
+					}
+				}
+				}
+			}
+		}
+		return;
+	}
+
 	// Impose boundary conditions (everything on levels)
 	if (m_grid.GetVerticalStaggering() ==
 		Grid::VerticalStaggering_Levels
@@ -830,12 +982,17 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
-				if (eBoundaryRight != Grid::BoundaryCondition_NoSlip) {
+				// Metric terms of the coincident interior node
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd() - 1);
+
+				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i-1][j][k];
 
@@ -844,7 +1001,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i-1][j][k];
-				} else if (eBoundaryRight != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryRight == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
@@ -854,9 +1011,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[k][i-1][j][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jm][k][0];
+					dGab = m_dataContraMetricA[i-1][jm][k][1];
+					dGax = m_dataContraMetricA[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -874,12 +1031,17 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
-				if (eBoundaryTop != Grid::BoundaryCondition_NoSlip) {
+				// Metric terms of the coincident interior node
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd() - 1);
+
+				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j-1][k];
 
@@ -888,7 +1050,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 
 					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j-1][k];
-				} else if (eBoundaryTop != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryTop == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
@@ -898,9 +1060,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[im][j-1][k][0];
+					dGbb = m_dataContraMetricB[im][j-1][k][1];
+					dGbx = m_dataContraMetricB[im][j-1][k][2];
 					//std::cout << dGbb << "\n";
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
@@ -919,11 +1081,16 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric terms of the coincident interior node
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd() - 1);
+
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i+1][j][k];
@@ -943,9 +1110,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jm][k][0];
+					dGab = m_dataContraMetricA[i+1][jm][k][1];
+					dGax = m_dataContraMetricA[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -963,11 +1130,16 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric terms of the coincident interior node
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd() - 1);
+
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j+1][k];
@@ -987,9 +1159,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[im][j+1][k][0];
+					dGbb = m_dataContraMetricB[im][j+1][k][1];
+					dGbx = m_dataContraMetricB[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1009,10 +1181,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric terms of the coincident interior node
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd() - 1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1033,9 +1210,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					dGaa = m_dataContraMetricA[i-1][jm][k][0];
+					dGab = m_dataContraMetricA[i-1][jm][k][1];
+					dGax = m_dataContraMetricA[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1067,9 +1244,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i-1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i-1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i-1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i-1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i-1][jm][k][0];
+					dGab = m_dataContraMetricAREdge[i-1][jm][k][1];
+					dGax = m_dataContraMetricAREdge[i-1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1087,10 +1264,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric terms of the coincident interior node
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd() - 1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1111,9 +1293,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					dGba = m_dataContraMetricB[im][j-1][k][0];
+					dGbb = m_dataContraMetricB[im][j-1][k][1];
+					dGbx = m_dataContraMetricB[im][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1145,9 +1327,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j-1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j-1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j-1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j-1][k][2];
+					dGba = m_dataContraMetricBREdge[im][j-1][k][0];
+					dGbb = m_dataContraMetricBREdge[im][j-1][k][1];
+					dGbx = m_dataContraMetricBREdge[im][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1165,10 +1347,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
+				// Metric terms of the coincident interior node
+				const int jm = std::min(
+					std::max(j, m_box.GetBInteriorBegin()),
+					m_box.GetBInteriorEnd() - 1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryLeft == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1189,9 +1376,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					dGaa = m_dataContraMetricA[i+1][jm][k][0];
+					dGab = m_dataContraMetricA[i+1][jm][k][1];
+					dGax = m_dataContraMetricA[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1223,9 +1410,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i+1][j][k][2];
 					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i+1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i+1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i+1][j][k][2];
+					dGaa = m_dataContraMetricAREdge[i+1][jm][k][0];
+					dGab = m_dataContraMetricAREdge[i+1][jm][k][1];
+					dGax = m_dataContraMetricAREdge[i+1][jm][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1243,10 +1430,15 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 			
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
+				// Metric terms of the coincident interior node
+				const int im = std::min(
+					std::max(i, m_box.GetAInteriorBegin()),
+					m_box.GetAInteriorEnd() - 1);
+
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 				if (eBoundaryBottom == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
@@ -1267,9 +1459,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					dGba = m_dataContraMetricB[im][j+1][k][0];
+					dGbb = m_dataContraMetricB[im][j+1][k][1];
+					dGbx = m_dataContraMetricB[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1301,9 +1493,9 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 						m_datavecStateREdge[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j+1][k][2];
 					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j+1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j+1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j+1][k][2];
+					dGba = m_dataContraMetricBREdge[im][j+1][k][0];
+					dGbb = m_dataContraMetricBREdge[im][j+1][k][1];
+					dGbx = m_dataContraMetricBREdge[im][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
diff --git a/src/atm/GridPatchCartesianGLL.h b/src/atm/GridPatchCartesianGLL.h
index 7f71389..ddd3f52 100644
--- a/src/atm/GridPatchCartesianGLL.h
+++ b/src/atm/GridPatchCartesianGLL.h
@@ -97,6 +97,13 @@ public:
 	);
 
 public:
+	///	<summary>
+	///		Copy the value at a non-periodic boundary into the halo beyond it.
+	///	</summary>
+	void ExtendHaloAcrossWalls(
+		DataArray3D<double> & data
+	) const;
+
 	///	<summary>
 	///		Apply boundary conditions to this patch.
 	///	</summary>
-- 
2.43.0


From 323acbeee74a2aad38018a5c909a0051256bcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 37/66] fix: uniform diffusion of momentum relative to the
 reference state in the V2 horizontal dynamics

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index 479001c..d4e50a3 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -1555,15 +1555,14 @@ void HorizontalDynamicsFEMV2::ApplyVectorHyperdiffusion(
 		const DataArray3D<double> & dContraMetric2DB =
 			pPatch->GetContraMetric2DB();
 
-		DataArray4D<double> & dataInitial =
-			pPatch->GetDataState(iDataInitial, DataLocation_Node);
+		const DataArray4D<double> & dataInitial =
+			(fApplyToRefState)
+				? pPatch->GetReferenceState(DataLocation_Node)
+				: pPatch->GetDataState(iDataInitial, DataLocation_Node);
 
 		DataArray4D<double> & dataUpdate =
 			pPatch->GetDataState(iDataUpdate, DataLocation_Node);
 
-		DataArray4D<double> & dataRef =
-			pPatch->GetReferenceState(DataLocation_Node);
-
 		// Element grid spacing and derivative coefficients
 		const double dElementDeltaA = pPatch->GetElementDeltaA();
 		const double dElementDeltaB = pPatch->GetElementDeltaB();
-- 
2.43.0


From aec165b98e22d301812c158f6e88ebc0c327cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 38/66] fix: advect tracers in the V2 horizontal dynamics

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 110 +++++++++++++++++++++++++++-
 1 file changed, 108 insertions(+), 2 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index d4e50a3..a9bc2f7 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -375,6 +375,15 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 		DataArray4D<double> & dataUpdateNode =
 			pPatch->GetDataState(iDataUpdate, DataLocation_Node);
 
+		const DataArray4D<double> & dataInitialTracer =
+			pPatch->GetDataTracers(iDataInitial);
+
+		DataArray4D<double> & dataUpdateTracer =
+			pPatch->GetDataTracers(iDataUpdate);
+
+		// Number of tracers
+		const int nTracerCount = dataInitialTracer.GetSize(0);
+
 		// Element grid spacing and derivative coefficients
 		const double dElementDeltaA = pPatch->GetElementDeltaA();
 		const double dElementDeltaB = pPatch->GetElementDeltaB();
@@ -451,6 +460,18 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 							- dTopography(iA,iB))
 						* m_dAuxDataNode(ConUbIx,i,j,k);
 
+					// Tracer flux
+					for (int c = 0; c < nTracerCount; c++) {
+						m_dAlphaTracerFlux(c,i,j,k) =
+							dJacobian2D(iA,iB)
+							* m_dAuxDataNode(ConUaIx,i,j,k)
+							* dataInitialTracer(c,iA,iB,k);
+
+						m_dBetaTracerFlux(c,i,j,k) =
+							dJacobian2D(iA,iB)
+							* m_dAuxDataNode(ConUbIx,i,j,k)
+							* dataInitialTracer(c,iA,iB,k);
+					}
 				}
 				}
 
@@ -577,6 +598,30 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 						dDeltaT * dInvJacobian2D * (
 							  dDaMassFluxA
 							+ dDbMassFluxB);
+
+					// Update tracers
+					for (int c = 0; c < nTracerCount; c++) {
+						double dDaTracerFluxA = 0.0;
+						double dDbTracerFluxB = 0.0;
+
+						for (int s = 0; s < nHorizontalOrder; s++) {
+							dDaTracerFluxA -=
+								m_dAlphaTracerFlux(c,s,j,k)
+								* dStiffness1D(i,s);
+
+							dDbTracerFluxB -=
+								m_dBetaTracerFlux(c,i,s,k)
+								* dStiffness1D(j,s);
+						}
+
+						dDaTracerFluxA *= dInvElementDeltaA;
+						dDbTracerFluxB *= dInvElementDeltaB;
+
+						dataUpdateTracer(c,iA,iB,k) -=
+							dDeltaT * dInvJacobian2D * (
+								  dDaTracerFluxA
+								+ dDbTracerFluxB);
+					}
 				}
 				}
 			}
@@ -936,6 +981,68 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 				m_dBetaPressureFlux(i,j,k) =
 					  dBetaBaseFlux
 					* dataInitialNode(PIx,iA,iB,k);
+
+				// Tracer flux
+				for (int c = 0; c < nTracerCount; c++) {
+					m_dAlphaTracerFlux(c,i,j,k) =
+						dAlphaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+
+					m_dBetaTracerFlux(c,i,j,k) =
+						dBetaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+				}
+
+#if !defined(DISABLE_UNIFORM_DIFFUSION_CHECKS)
+				////////////////////////////////////////////////////////
+				// Apply uniform diffusion to tracers
+				if (pGrid->HasUniformDiffusion()) {
+
+					for (int c = 0; c < nTracerCount; c++) {
+
+						// Derivatives of tracer mixing ratio
+						double dCovDaQ = 0.0;
+						double dCovDbQ = 0.0;
+
+#pragma unroll
+						for (int s = 0; s < nHorizontalOrder; s++) {
+							dCovDaQ +=
+								dataInitialTracer(c,iElementA+s,iB,k)
+								/ dataInitialNode(RIx,iElementA+s,iB,k)
+								* dDxBasis1D(s,i);
+
+							dCovDbQ +=
+								dataInitialTracer(c,iA,iElementB+s,k)
+								/ dataInitialNode(RIx,iA,iElementB+s,k)
+								* dDxBasis1D(s,j);
+						}
+
+						dCovDaQ *= dInvElementDeltaA;
+						dCovDbQ *= dInvElementDeltaB;
+
+						// Gradient of tracer mixing ratio
+						double dConDaQ =
+							  dContraMetricA(iA,iB,k,0) * dCovDaQ
+							+ dContraMetricA(iA,iB,k,1) * dCovDbQ;
+
+						double dConDbQ =
+							  dContraMetricA(iA,iB,k,1) * dCovDaQ
+							+ dContraMetricB(iA,iB,k,1) * dCovDbQ;
+
+						m_dAlphaTracerFlux(c,i,j,k) -=
+							pGrid->GetScalarUniformDiffusionCoeff()
+							* m_dLocalJacobian(i,j,k)
+							* dataInitialNode(RIx,iA,iB,k)
+							* dConDaQ;
+
+						m_dBetaTracerFlux(c,i,j,k) -=
+							pGrid->GetScalarUniformDiffusionCoeff()
+							* m_dLocalJacobian(i,j,k)
+							* dataInitialNode(RIx,iA,iB,k)
+							* dConDbQ;
+					}
+				}
+#endif
 			}
 			}
 			}
@@ -1049,7 +1156,7 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 					dDeltaT * dInvJacobian * (
 						  dDaPressureFluxA
 						+ dDbPressureFluxB);
-/*
+
 				// Update tracers
 				for (int c = 0; c < nTracerCount; c++) {
 					double dDaTracerFluxA = 0.0;
@@ -1074,7 +1181,6 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 							  dDaTracerFluxA
 							+ dDbTracerFluxB);
 				}
-*/
 			}
 			}
 			}
-- 
2.43.0


From 3af2d8dc1b29104764fa52ee2a179852888ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 39/66] fix: carry over the implicit half step in proportion to
 the time step

The last step of a run may be shorter than the others, but the Strang scheme
applied the implicit tendency carried over from the previous step over the
full previous half step, so the implicit terms were integrated past the end
time.
---
 src/atm/TimestepSchemeStrang.cpp | 8 +++++++-
 src/atm/TimestepSchemeStrang.h   | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/atm/TimestepSchemeStrang.cpp b/src/atm/TimestepSchemeStrang.cpp
index 684f2e9..4a2e38b 100644
--- a/src/atm/TimestepSchemeStrang.cpp
+++ b/src/atm/TimestepSchemeStrang.cpp
@@ -29,7 +29,8 @@ TimestepSchemeStrang::TimestepSchemeStrang(
 ) :
 	TimestepScheme(model),
 	m_dOffCentering(dOffCentering),
-	m_eExplicitDiscretization(eExplicitDiscretization)
+	m_eExplicitDiscretization(eExplicitDiscretization),
+	m_dCarryoverDeltaT(0.0)
 {
 	// Check bounds of OffCentering parameter
 	if ((m_dOffCentering < 0.0) || (m_dOffCentering > 1.0)) {
@@ -474,6 +475,9 @@ void TimestepSchemeStrang::Step(
 		pHorizontalDynamics->StepImplicit(0, 0, time, dHalfDeltaT);
 
 	} else {
+		// The carryover is proportional to the step that stored it
+		m_dCarryoverCombination[1] = dDeltaT / m_dCarryoverDeltaT;
+
 		pGrid->LinearCombineData(m_dCarryoverCombination, 0, DataType_State);
 		pGrid->LinearCombineData(m_dCarryoverCombination, 0, DataType_Tracers);
 
@@ -654,6 +658,8 @@ void TimestepSchemeStrang::Step(
 	if (!fLastStep) {
 		pGrid->LinearCombineData(m_dCarryoverFinal, 1, DataType_State);
 		pGrid->LinearCombineData(m_dCarryoverFinal, 1, DataType_Tracers);
+
+		m_dCarryoverDeltaT = dDeltaT;
 	}
 
 	//pGrid->CopyData(0, 1, DataType_State);
diff --git a/src/atm/TimestepSchemeStrang.h b/src/atm/TimestepSchemeStrang.h
index 67770a4..971fa9b 100644
--- a/src/atm/TimestepSchemeStrang.h
+++ b/src/atm/TimestepSchemeStrang.h
@@ -123,6 +123,11 @@ private:
 	///	</summary>
 	int m_nExplicitSubSteps;
 
+	///	<summary>
+	///		Length of the time step that stored the carryover.
+	///	</summary>
+	double m_dCarryoverDeltaT;
+
 	///	<summary>
 	///		Carryover combination.
 	///	</summary>
-- 
2.43.0


From d57f6b255bc82e446f8e731221dc80a96982b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 40/66] fix: store the banded tracer matrix with rows of its
 bandwidth

The LU factors of the implicit tracer update were kept in a square matrix with
one row per level, although a band of 2*order-1 diagonals needs rows of
3*(2*order-1)+1 values.  With fewer levels than that the entries of a row ran
into the next one and past the end of the matrix, and LAPACK refused the
leading dimension by ending the process.
---
 src/atm/VerticalDynamicsFEM.cpp   |  4 ++++
 src/atm/VerticalDynamicsFEM.h     |  4 ++--
 src/atm/VerticalDynamicsFEMV2.cpp |  4 ++++
 src/atm/VerticalDynamicsFEMV2.h   |  4 ++--
 src/atm/VerticalDynamicsSchur.cpp |  4 ++++
 src/atm/VerticalDynamicsSchur.h   |  4 ++--
 src/base/LinearAlgebra.cpp        | 19 ++++++++++++++-----
 7 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 046118f..07d3038 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -387,7 +387,11 @@ void VerticalDynamicsFEM::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index f4e1017..321e3af 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -129,8 +129,8 @@ protected:
 #if defined(USE_JACOBIAN_DEBUG) || defined(USE_JACOBIAN_GENERAL)
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
-		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nOffDiagonals = 2 * m_nVerticalOrder - 1;
+		return (2 * nOffDiagonals + k1 - k0) + (3 * nOffDiagonals + 1) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 7d36c23..c61ba7e 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -395,7 +395,11 @@ void VerticalDynamicsFEMV2::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 57e9fc9..636fa08 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -129,8 +129,8 @@ protected:
 #if defined(USE_JACOBIAN_DEBUG) || defined(USE_JACOBIAN_GENERAL)
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
-		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nOffDiagonals = 2 * m_nVerticalOrder - 1;
+		return (2 * nOffDiagonals + k1 - k0) + (3 * nOffDiagonals + 1) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 9cf5c2b..3e3256e 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -418,7 +418,11 @@ void VerticalDynamicsSchur::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsSchur.h b/src/atm/VerticalDynamicsSchur.h
index 5a06aa4..60a97f6 100644
--- a/src/atm/VerticalDynamicsSchur.h
+++ b/src/atm/VerticalDynamicsSchur.h
@@ -166,8 +166,8 @@ protected:
 #if defined(USE_JACOBIAN_DEBUG) || defined(USE_JACOBIAN_GENERAL)
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
-		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nOffDiagonals = 2 * m_nVerticalOrder - 1;
+		return (2 * nOffDiagonals + k1 - k0) + (3 * nOffDiagonals + 1) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index dfcbade..b614145 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -305,10 +305,15 @@ int LAPACK::DGBTRF(
 	int iKL,
 	int iKU
 ) {
+	// Check dimensions
+	if (dA.GetColumns() < static_cast<size_t>(2 * iKL + iKU + 1)) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBTRF");
+	}
+
 	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = m;
 
-	int lda = m;
+	int lda = dA.GetColumns();
 
 	int nInfo;
 
@@ -365,10 +370,14 @@ int LAPACK::DGBTRS(
 	int iKL,
 	int iKU
 ) {
-	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	// Check dimensions
+	if (dA.GetColumns() < static_cast<size_t>(2 * iKL + iKU + 1)) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBTRS");
+	}
 
-	int lda = m;
+	int n = dA.GetRows();
+
+	int lda = dA.GetColumns();
 	int ldb = dB.GetRows();
 	int nRHS = 1;
 
-- 
2.43.0


From 2c2429124702d231d0bb7803ceab48bf8f0d6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 41/66] fix: update the tracers explicitly with the other
 implicit terms taken explicitly

StepImplicitTermsExplicitly advanced rho, theta and w with their explicit
tendencies but solved the implicit tracer system, with the vertical velocity of
the partly updated state, unless the vertical was fully explicit.
---
 src/atm/VerticalDynamicsFEM.cpp   | 20 ++++++++++++--------
 src/atm/VerticalDynamicsFEM.h     |  3 ++-
 src/atm/VerticalDynamicsFEMV2.cpp | 20 ++++++++++++--------
 src/atm/VerticalDynamicsFEMV2.h   |  3 ++-
 src/atm/VerticalDynamicsSchur.cpp | 20 ++++++++++++--------
 src/atm/VerticalDynamicsSchur.h   |  3 ++-
 6 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 07d3038..0e87762 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -609,7 +609,8 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				true);
 		}
 		}
 	}	     
@@ -812,7 +813,8 @@ void VerticalDynamicsFEM::StepExplicit(
 					dataUpdateREdge,
 					dataReferenceTracer,
 					dataInitialTracer,
-					dataUpdateTracer);
+					dataUpdateTracer,
+					true);
 
 			// Calculate xi dot on interfaces (this is done in Evaluate()
 			// when m_fFullyExplicit is enabled)
@@ -1543,7 +1545,8 @@ void VerticalDynamicsFEM::StepImplicit(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				false);
 		}
 		}
 
@@ -3798,7 +3801,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 	const DataArray4D<double> & dataUpdateREdge,
 	const DataArray4D<double> & dataRefTracer,
 	const DataArray4D<double> & dataInitialTracer,
-	DataArray4D<double> & dataUpdateTracer
+	DataArray4D<double> & dataUpdateTracer,
+	bool fExplicit
 ) {
 	// Indices of EquationSet variables
 	const int UIx = 0;
@@ -3919,7 +3923,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4055,7 +4059,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -4173,7 +4177,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -4200,7 +4204,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index 321e3af..ac8aeab 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -251,7 +251,8 @@ protected:
 		const DataArray4D<double> & dataUpdateREdge,
 		const DataArray4D<double> & dataRefTracer,
 		const DataArray4D<double> & dataInitialTracer,
-		DataArray4D<double> & dataUpdateTracer
+		DataArray4D<double> & dataUpdateTracer,
+		bool fExplicit
 	);
 
 public:
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index c61ba7e..63d4e04 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -624,7 +624,8 @@ void VerticalDynamicsFEMV2::StepImplicitTermsExplicitly(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				true);
 		}
 		}
 	}	     
@@ -847,7 +848,8 @@ void VerticalDynamicsFEMV2::StepExplicit(
 					dataUpdateREdge,
 					dataReferenceTracer,
 					dataInitialTracer,
-					dataUpdateTracer);
+					dataUpdateTracer,
+					true);
 
 			// Calculate xi dot on interfaces (this is done in Evaluate()
 			// when m_fFullyExplicit is enabled)
@@ -1674,7 +1676,8 @@ void VerticalDynamicsFEMV2::StepImplicit(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				false);
 		}
 		}
 
@@ -4003,7 +4006,8 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 	const DataArray4D<double> & dataUpdateREdge,
 	const DataArray4D<double> & dataRefTracer,
 	const DataArray4D<double> & dataInitialTracer,
-	DataArray4D<double> & dataUpdateTracer
+	DataArray4D<double> & dataUpdateTracer,
+	bool fExplicit
 ) {
 	// Indices of EquationSet variables
 	const int UIx = 0;
@@ -4124,7 +4128,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4263,7 +4267,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -4384,7 +4388,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -4411,7 +4415,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 636fa08..280b3a9 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -251,7 +251,8 @@ protected:
 		const DataArray4D<double> & dataUpdateREdge,
 		const DataArray4D<double> & dataRefTracer,
 		const DataArray4D<double> & dataInitialTracer,
-		DataArray4D<double> & dataUpdateTracer
+		DataArray4D<double> & dataUpdateTracer,
+		bool fExplicit
 	);
 
 public:
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 3e3256e..f116a44 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -647,7 +647,8 @@ void VerticalDynamicsSchur::StepImplicitTermsExplicitly(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				true);
 		}
 		}
 	}	     
@@ -861,7 +862,8 @@ void VerticalDynamicsSchur::StepExplicit(
 					dataUpdateREdge,
 					dataReferenceTracer,
 					dataInitialTracer,
-					dataUpdateTracer);
+					dataUpdateTracer,
+					true);
 
 			// Calculate xi dot on interfaces (this is done in Evaluate()
 			// when m_fFullyExplicit is enabled)
@@ -1869,7 +1871,8 @@ void VerticalDynamicsSchur::StepImplicit(
 				dataUpdateREdge,
 				dataReferenceTracer,
 				dataInitialTracer,
-				dataUpdateTracer);
+				dataUpdateTracer,
+				false);
 		}
 		}
 
@@ -3586,7 +3589,8 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 	const DataArray4D<double> & dataUpdateREdge,
 	const DataArray4D<double> & dataRefTracer,
 	const DataArray4D<double> & dataInitialTracer,
-	DataArray4D<double> & dataUpdateTracer
+	DataArray4D<double> & dataUpdateTracer,
+	bool fExplicit
 ) {
 	// Indices of EquationSet variables
 	const int UIx = 0;
@@ -3707,7 +3711,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -3846,7 +3850,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -3967,7 +3971,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -3994,7 +3998,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsSchur.h b/src/atm/VerticalDynamicsSchur.h
index 60a97f6..d639663 100644
--- a/src/atm/VerticalDynamicsSchur.h
+++ b/src/atm/VerticalDynamicsSchur.h
@@ -288,7 +288,8 @@ protected:
 		const DataArray4D<double> & dataUpdateREdge,
 		const DataArray4D<double> & dataRefTracer,
 		const DataArray4D<double> & dataInitialTracer,
-		DataArray4D<double> & dataUpdateTracer
+		DataArray4D<double> & dataUpdateTracer,
+		bool fExplicit
 	);
 
 public:
-- 
2.43.0


From e9e23ac8c51cf281385705b1438e3306c499434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 42/66] fix: vertical diffusion of tracers: metric factor and
 missing reference state

---
 src/atm/VerticalDynamicsFEM.cpp   | 10 +++++++---
 src/atm/VerticalDynamicsFEMV2.cpp | 10 +++++++---
 src/atm/VerticalDynamicsSchur.cpp | 10 +++++++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 0e87762..92abf37 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -4136,9 +4136,11 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					m_dTracerDensityNode[k]
 					/ m_dStateNode[RIx][k];
 
-				m_dStateAux[k] -=
-					dataRefTracer[c][m_iA][m_iB][k]
-					/ m_dStateRefNode[RIx][k];
+				if (pGrid->HasReferenceState() && m_fUseReferenceState) {
+					m_dStateAux[k] -=
+						dataRefTracer[c][m_iA][m_iB][k]
+						/ m_dStateRefNode[RIx][k];
+				}
 			}
 
 			pGrid->DifferentiateNodeToREdge(
@@ -4148,6 +4150,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			for (int k = 1; k < nRElements; k++) {
 				m_dMassFluxREdge[k] -=
 					pGrid->GetScalarUniformDiffusionCoeff()
+					/ (pGrid->GetZtop() * pGrid->GetZtop())
+					* dJacobianREdge[m_iA][m_iB][k]
 					* m_dStateREdge[RIx][k]
 					* m_dStateAuxDiff[k];
 			}
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 63d4e04..2e45a32 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -4347,9 +4347,11 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 					m_dTracerDensityNode[k]
 					/ m_dStateNode[RIx][k];
 
-				m_dStateAux[k] -=
-					dataRefTracer[c][m_iA][m_iB][k]
-					/ m_dStateRefNode[RIx][k];
+				if (pGrid->HasReferenceState() && m_fUseReferenceState) {
+					m_dStateAux[k] -=
+						dataRefTracer[c][m_iA][m_iB][k]
+						/ m_dStateRefNode[RIx][k];
+				}
 			}
 
 			pGrid->DifferentiateNodeToREdge(
@@ -4359,6 +4361,8 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 			for (int k = 1; k < nRElements; k++) {
 				m_dMassFluxREdge[k] -=
 					pGrid->GetScalarUniformDiffusionCoeff()
+					/ (pGrid->GetZtop() * pGrid->GetZtop())
+					* dJacobianREdge[m_iA][m_iB][k]
 					* m_dStateREdge[RIx][k]
 					* m_dStateAuxDiff[k];
 			}
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index f116a44..0a91b37 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -3930,9 +3930,11 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 					m_dTracerDensityNode[k]
 					/ m_dStateNode[RIx][k];
 
-				m_dStateAux[k] -=
-					dataRefTracer[c][m_iA][m_iB][k]
-					/ m_dStateRefNode[RIx][k];
+				if (pGrid->HasReferenceState() && m_fUseReferenceState) {
+					m_dStateAux[k] -=
+						dataRefTracer[c][m_iA][m_iB][k]
+						/ m_dStateRefNode[RIx][k];
+				}
 			}
 
 			pGrid->DifferentiateNodeToREdge(
@@ -3942,6 +3944,8 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 			for (int k = 1; k < nRElements; k++) {
 				m_dMassFluxREdge[k] -=
 					pGrid->GetScalarUniformDiffusionCoeff()
+					/ (pGrid->GetZtop() * pGrid->GetZtop())
+					* dJacobianREdge[m_iA][m_iB][k]
 					* m_dStateREdge[RIx][k]
 					* m_dStateAuxDiff[k];
 			}
-- 
2.43.0


From 467d03afd853c29fc544376b92f130396d98d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 43/66] fix: take the tracer mass flux on model levels where
 the mass flux is

---
 src/atm/VerticalDynamicsFEM.cpp   | 65 ++++++++++++++++++++++++-------
 src/atm/VerticalDynamicsFEMV2.cpp | 65 ++++++++++++++++++++++++-------
 src/atm/VerticalDynamicsSchur.cpp | 65 ++++++++++++++++++++++++-------
 3 files changed, 153 insertions(+), 42 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 92abf37..029003f 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -4128,6 +4128,17 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				* m_dXiDotREdge[k];
 		}
 
+		// Mass flux on model levels (explicit advection only)
+		const bool fFluxOnLevels = fExplicit && fMassFluxOnLevels;
+		if (fFluxOnLevels) {
+			for (int k = 0; k < nRElements; k++) {
+				m_dMassFluxNode[k] =
+					dJacobianNode[m_iA][m_iB][k]
+					* m_dTracerDensityNode[k]
+					* m_dXiDotNode[k];
+			}
+		}
+
 		////////////////////////////////////////////////////////////
 		// Apply uniform diffusion
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4143,17 +4154,35 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				}
 			}
 
-			pGrid->DifferentiateNodeToREdge(
-				m_dStateAux,
-				m_dStateAuxDiff);
-
-			for (int k = 1; k < nRElements; k++) {
-				m_dMassFluxREdge[k] -=
-					pGrid->GetScalarUniformDiffusionCoeff()
-					/ (pGrid->GetZtop() * pGrid->GetZtop())
-					* dJacobianREdge[m_iA][m_iB][k]
-					* m_dStateREdge[RIx][k]
-					* m_dStateAuxDiff[k];
+			if (fFluxOnLevels) {
+				pGrid->DifferentiateNodeToNode(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				// No flux through nodes which lie on the boundary
+				const int kBoundary = (fZeroBoundaries ? 0 : 1);
+				for (int k = kBoundary; k < nRElements-kBoundary; k++) {
+					m_dMassFluxNode[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianNode[m_iA][m_iB][k]
+						* m_dStateNode[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
+
+			} else {
+				pGrid->DifferentiateNodeToREdge(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				for (int k = 1; k < nRElements; k++) {
+					m_dMassFluxREdge[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianREdge[m_iA][m_iB][k]
+						* m_dStateREdge[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
 			}
 		}
 
@@ -4161,9 +4190,17 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 		m_dMassFluxREdge[0] = 0.0;
 		m_dMassFluxREdge[nRElements] = 0.0;
 
-		pGrid->DifferentiateREdgeToNode(
-			m_dMassFluxREdge,
-			m_dDiffMassFluxNode);
+		if (fFluxOnLevels) {
+			pGrid->DifferentiateNodeToNode(
+				m_dMassFluxNode,
+				m_dDiffMassFluxNode,
+				fZeroBoundaries);
+
+		} else {
+			pGrid->DifferentiateREdgeToNode(
+				m_dMassFluxREdge,
+				m_dDiffMassFluxNode);
+		}
 
 		// Update tracers
 		for (int k = 0; k < nRElements; k++) {
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 2e45a32..8eb455a 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -4339,6 +4339,17 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 				* m_dXiDotREdge[k];
 		}
 
+		// Mass flux on model levels (explicit advection only)
+		const bool fFluxOnLevels = fExplicit && fMassFluxOnLevels;
+		if (fFluxOnLevels) {
+			for (int k = 0; k < nRElements; k++) {
+				m_dMassFluxNode[k] =
+					dJacobianNode[m_iA][m_iB][k]
+					* m_dTracerDensityNode[k]
+					* m_dXiDotNode[k];
+			}
+		}
+
 		////////////////////////////////////////////////////////////
 		// Apply uniform diffusion
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4354,17 +4365,35 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 				}
 			}
 
-			pGrid->DifferentiateNodeToREdge(
-				m_dStateAux,
-				m_dStateAuxDiff);
-
-			for (int k = 1; k < nRElements; k++) {
-				m_dMassFluxREdge[k] -=
-					pGrid->GetScalarUniformDiffusionCoeff()
-					/ (pGrid->GetZtop() * pGrid->GetZtop())
-					* dJacobianREdge[m_iA][m_iB][k]
-					* m_dStateREdge[RIx][k]
-					* m_dStateAuxDiff[k];
+			if (fFluxOnLevels) {
+				pGrid->DifferentiateNodeToNode(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				// No flux through nodes which lie on the boundary
+				const int kBoundary = (fZeroBoundaries ? 0 : 1);
+				for (int k = kBoundary; k < nRElements-kBoundary; k++) {
+					m_dMassFluxNode[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianNode[m_iA][m_iB][k]
+						* m_dStateNode[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
+
+			} else {
+				pGrid->DifferentiateNodeToREdge(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				for (int k = 1; k < nRElements; k++) {
+					m_dMassFluxREdge[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianREdge[m_iA][m_iB][k]
+						* m_dStateREdge[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
 			}
 		}
 
@@ -4372,9 +4401,17 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 		m_dMassFluxREdge[0] = 0.0;
 		m_dMassFluxREdge[nRElements] = 0.0;
 
-		pGrid->DifferentiateREdgeToNode(
-			m_dMassFluxREdge,
-			m_dDiffMassFluxNode);
+		if (fFluxOnLevels) {
+			pGrid->DifferentiateNodeToNode(
+				m_dMassFluxNode,
+				m_dDiffMassFluxNode,
+				fZeroBoundaries);
+
+		} else {
+			pGrid->DifferentiateREdgeToNode(
+				m_dMassFluxREdge,
+				m_dDiffMassFluxNode);
+		}
 
 		// Update tracers
 		for (int k = 0; k < nRElements; k++) {
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 0a91b37..4c26afc 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -3922,6 +3922,17 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 				* m_dXiDotREdge[k];
 		}
 
+		// Mass flux on model levels (explicit advection only)
+		const bool fFluxOnLevels = fExplicit && fMassFluxOnLevels;
+		if (fFluxOnLevels) {
+			for (int k = 0; k < nRElements; k++) {
+				m_dMassFluxNode[k] =
+					dJacobianNode[m_iA][m_iB][k]
+					* m_dTracerDensityNode[k]
+					* m_dXiDotNode[k];
+			}
+		}
+
 		////////////////////////////////////////////////////////////
 		// Apply uniform diffusion
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -3937,17 +3948,35 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 				}
 			}
 
-			pGrid->DifferentiateNodeToREdge(
-				m_dStateAux,
-				m_dStateAuxDiff);
-
-			for (int k = 1; k < nRElements; k++) {
-				m_dMassFluxREdge[k] -=
-					pGrid->GetScalarUniformDiffusionCoeff()
-					/ (pGrid->GetZtop() * pGrid->GetZtop())
-					* dJacobianREdge[m_iA][m_iB][k]
-					* m_dStateREdge[RIx][k]
-					* m_dStateAuxDiff[k];
+			if (fFluxOnLevels) {
+				pGrid->DifferentiateNodeToNode(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				// No flux through nodes which lie on the boundary
+				const int kBoundary = (fZeroBoundaries ? 0 : 1);
+				for (int k = kBoundary; k < nRElements-kBoundary; k++) {
+					m_dMassFluxNode[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianNode[m_iA][m_iB][k]
+						* m_dStateNode[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
+
+			} else {
+				pGrid->DifferentiateNodeToREdge(
+					m_dStateAux,
+					m_dStateAuxDiff);
+
+				for (int k = 1; k < nRElements; k++) {
+					m_dMassFluxREdge[k] -=
+						pGrid->GetScalarUniformDiffusionCoeff()
+						/ (pGrid->GetZtop() * pGrid->GetZtop())
+						* dJacobianREdge[m_iA][m_iB][k]
+						* m_dStateREdge[RIx][k]
+						* m_dStateAuxDiff[k];
+				}
 			}
 		}
 
@@ -3955,9 +3984,17 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 		m_dMassFluxREdge[0] = 0.0;
 		m_dMassFluxREdge[nRElements] = 0.0;
 
-		pGrid->DifferentiateREdgeToNode(
-			m_dMassFluxREdge,
-			m_dDiffMassFluxNode);
+		if (fFluxOnLevels) {
+			pGrid->DifferentiateNodeToNode(
+				m_dMassFluxNode,
+				m_dDiffMassFluxNode,
+				fZeroBoundaries);
+
+		} else {
+			pGrid->DifferentiateREdgeToNode(
+				m_dMassFluxREdge,
+				m_dDiffMassFluxNode);
+		}
 
 		// Update tracers
 		for (int k = 0; k < nRElements; k++) {
-- 
2.43.0


From 5800036aba90197d3db434c274ce0d175fff5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 44/66] fix: derivative of levels at interfaces between
 elements of unequal size

---
 src/atm/LinearColumnOperatorFEM.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 0b7634b..06ad084 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -541,10 +541,19 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 		}
 
 		// Element spacing
-		double dDeltaREta = 
+		const double dElementDeltaREta =
 			  dREtaREdge[(a+1) * nVerticalOrder]
 			- dREtaREdge[ a    * nVerticalOrder];
 
+		// On element edges the jump acts over the mean spacing of the
+		// elements on either side
+		double dDeltaREta = dElementDeltaREta;
+		if (fOnREdge) {
+			dDeltaREta = 0.5 * (
+				  dREtaREdge[(a+2) * nVerticalOrder]
+				- dREtaREdge[ a    * nVerticalOrder]);
+		}
+
 		// Contribution due to local derivative
 		PolynomialInterp::DiffLagrangianPolynomialCoeffs(
 			nVerticalOrder,
@@ -578,7 +587,7 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 		// Derivatives of the flux correction function at this point
 		DataArray1D<double> dNodesR(1);
 		dNodesR[0] =
-			(dREtaOut[l] - dREtaREdge[a * nVerticalOrder]) / dDeltaREta;
+			(dREtaOut[l] - dREtaREdge[a * nVerticalOrder]) / dElementDeltaREta;
 
 		DataArray1D<double> dNodesL(1);
 		dNodesL[0] = 1.0 - dNodesR[0];
-- 
2.43.0


From 170a7469c0146dcb85c4c83189c206a94d8d9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 45/66] fix: second derivative of levels on elements of unequal
 size

---
 src/atm/LinearColumnOperatorFEM.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 06ad084..f92ee56 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1132,10 +1132,6 @@ void LinearColumnDiffDiffFEM::Initialize(
 		for (int a = 0; a < nFiniteElements; a++) {
 
 			// Get the derivatives from the FluxCorrectionFunction
-			double dElementDeltaXi =
-				dREtaREdge[(a+1) * nVerticalOrder]
-				- dREtaREdge[a * nVerticalOrder];
-
 			DataArray1D<double> dStandardNode(nVerticalOrder);
 			dStandardNode[0] = 1.0;
 
@@ -1146,7 +1142,21 @@ void LinearColumnDiffDiffFEM::Initialize(
 				dStandardNode,
 				dDiffCorrectionFn);
 
-			dDiffCorrectionFn[0] /= dElementDeltaXi;
+			// Jumps act over the mean spacing of the elements on either
+			// side of an edge, so that both see the same flux
+			double dDiffCorrectionL = 0.0;
+			if (a > 0) {
+				dDiffCorrectionL = 2.0 * dDiffCorrectionFn[0]
+					/ ( dREtaREdge[(a+1) * nVerticalOrder]
+					  - dREtaREdge[(a-1) * nVerticalOrder]);
+			}
+
+			double dDiffCorrectionR = 0.0;
+			if (a < nFiniteElements-1) {
+				dDiffCorrectionR = 2.0 * dDiffCorrectionFn[0]
+					/ ( dREtaREdge[(a+2) * nVerticalOrder]
+					  - dREtaREdge[ a    * nVerticalOrder]);
+			}
 
 			// Build local first derivative operator
 			DataArray2D<double> dDiffNodeToNode(
@@ -1262,9 +1272,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionR;
 						m_dCoeff[ax+j][ax+nVerticalOrder+i] +=
-							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionR;
 					}
 				}
 
@@ -1285,9 +1295,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax-nVerticalOrder+i] +=
-							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionL;
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionL;
 					}
 				}
 			}
-- 
2.43.0


From fe93bc356aeaf11ee3172a467c8c8921356e08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 46/66] fix: second derivative of continuous columns on
 elements of unequal size

---
 src/atm/LinearColumnOperatorFEM.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index f92ee56..9588c1e 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1358,11 +1358,20 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 				double dWlocal = dW[j];
 
+				// Nodes on element edges carry the weights of both elements
+				double dDeltaREta =
+					  dREtaREdge[(a+1) * nVerticalOrder]
+					- dREtaREdge[ a    * nVerticalOrder];
+
 				if ((j == 0) && (a != 0)) {
-					dWlocal *= 2.0;
+					dWlocal *= 1.0
+						+ ( dREtaREdge[ a    * nVerticalOrder]
+						  - dREtaREdge[(a-1) * nVerticalOrder]) / dDeltaREta;
 				}
 				if ((j == nVerticalOrder) && (a != nFiniteElements-1)) {
-					dWlocal *= 2.0;
+					dWlocal *= 1.0
+						+ ( dREtaREdge[(a+2) * nVerticalOrder]
+						  - dREtaREdge[(a+1) * nVerticalOrder]) / dDeltaREta;
 				}
 
 				for (int i = 0; i <= nVerticalOrder; i++) {
@@ -1459,11 +1468,20 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 
 			double dWlocal = dW[j];
 
+			// Nodes on element edges carry the weights of both elements
+			double dDeltaREta =
+				  dREtaNode[(a+1) * (nVerticalOrder-1)]
+				- dREtaNode[ a    * (nVerticalOrder-1)];
+
 			if ((j == 0) && (a != 0)) {
-				dWlocal *= 2.0;
+				dWlocal *= 1.0
+					+ ( dREtaNode[ a    * (nVerticalOrder-1)]
+					  - dREtaNode[(a-1) * (nVerticalOrder-1)]) / dDeltaREta;
 			}
 			if ((j == nVerticalOrder-1) && (a != nFiniteElements-1)) {
-				dWlocal *= 2.0;
+				dWlocal *= 1.0
+					+ ( dREtaNode[(a+2) * (nVerticalOrder-1)]
+					  - dREtaNode[(a+1) * (nVerticalOrder-1)]) / dDeltaREta;
 			}
 
 			for (int i = 0; i < nVerticalOrder; i++) {
-- 
2.43.0


From 9fb186d1fd95ff1c6a6d401575f31e26221e990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 47/66] fix: assigning a DataArray2D to itself no longer erases
 its data

---
 src/base/DataArray2D.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..a60c866 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -301,8 +301,6 @@ public:
 				Allocate(da.m_sSize[0], da.m_sSize[1]);
 			}
 
-			Deallocate();
-			Allocate(da.m_sSize[0], da.m_sSize[1]);
 			m_eDataType = da.m_eDataType;
 			m_eDataLocation = da.m_eDataLocation;
 		}
-- 
2.43.0


From 16e03b702bbb18f623585defa667f8505be58936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 48/66] fix: generalized inverse by SVD of matrices with more
 rows than columns

---
 src/base/LinearAlgebra.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index b614145..50e52e1 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -654,9 +654,9 @@ void LAPACK::GeneralizedInverseSVD(
 	if (dA.GetColumns() > dA.GetRows()) {
 
 		// Apply inverted singular values to U
-		for (int i = 0; i < dA.GetColumns(); i++) {
-		for (int j = 0; j < dA.GetRows(); j++) {
-			dU[i][j] *= dS[j];
+		for (int i = 0; i < dA.GetRows(); i++) {
+		for (int j = 0; j < dA.GetColumns(); j++) {
+			dU[i][j] *= dS[i];
 		}
 		}
 
@@ -664,7 +664,7 @@ void LAPACK::GeneralizedInverseSVD(
 		for (int i = 0; i < dA.GetRows(); i++) {
 		for (int j = 0; j < dA.GetColumns(); j++) {
 		for (int k = 0; k < dA.GetRows(); k++) {
-			dOut[i][j] += dVT[i][k] * dU[j][k];
+			dOut[i][j] += dVT[i][k] * dU[k][j];
 		}
 		}
 		}
-- 
2.43.0


From 008a2f23d49d5bfdd6a5de1e262126a22a30c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 49/66] fix: grid spacings to the left of the zero coordinate

---
 src/atm/GridSpacing.cpp | 46 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/atm/GridSpacing.cpp b/src/atm/GridSpacing.cpp
index 6a750cb..4fbde30 100644
--- a/src/atm/GridSpacing.cpp
+++ b/src/atm/GridSpacing.cpp
@@ -95,9 +95,9 @@ double GridSpacingGaussLobatto::GetNode(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
-		ixSubElement = m_nOrder + ixSubElement;
+		ixSubElement = (m_nOrder - 1) + ixSubElement;
 	}
 
 	if (ixSubElement >= m_nOrder) {
@@ -115,9 +115,9 @@ double GridSpacingGaussLobatto::GetEdge(int ix) const {
 	int ixElement    = (ix / (m_nOrder - 1));
 	int ixSubElement = (ix % (m_nOrder - 1));
 
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
-		ixSubElement = m_nOrder + ixSubElement;
+		ixSubElement = (m_nOrder - 1) + ixSubElement;
 	}
 
 	if (ixSubElement >= m_nOrder) {
@@ -134,6 +134,11 @@ double GridSpacingGaussLobatto::GetEdge(int ix) const {
 double GridSpacingGaussLobatto::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = (m_nOrder - 1) + ixSubElement;
+	}
+
 	if (ixSubElement == 0) {
 		return (2.0 * m_dW[0]);
 	} else {
@@ -146,6 +151,11 @@ double GridSpacingGaussLobatto::GetNodeNormArea(int ix) const {
 double GridSpacingGaussLobatto::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = (m_nOrder - 1) + ixSubElement;
+	}
+
 	if (ixSubElement == 0) {
 		return (2.0 * m_dW[0]);
 	} else {
@@ -182,7 +192,7 @@ double GridSpacingGaussLobattoRepeated::GetNode(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -202,7 +212,7 @@ double GridSpacingGaussLobattoRepeated::GetEdge(int ix) const {
 	int ixElement    = (ix / m_nOrder);
 	int ixSubElement = (ix % m_nOrder);
 
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -221,6 +231,11 @@ double GridSpacingGaussLobattoRepeated::GetEdge(int ix) const {
 double GridSpacingGaussLobattoRepeated::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = m_nOrder + ixSubElement;
+	}
+
 	return (m_dW[ixSubElement]);
 }
 
@@ -229,6 +244,11 @@ double GridSpacingGaussLobattoRepeated::GetNodeNormArea(int ix) const {
 double GridSpacingGaussLobattoRepeated::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = m_nOrder + ixSubElement;
+	}
+
 	return (m_dW[ixSubElement]);
 }
 
@@ -265,7 +285,7 @@ double GridSpacingMixedGaussLobatto::GetNode(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -286,7 +306,7 @@ double GridSpacingMixedGaussLobatto::GetEdge(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -305,6 +325,11 @@ double GridSpacingMixedGaussLobatto::GetEdge(int ix) const {
 double GridSpacingMixedGaussLobatto::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = m_nOrder + ixSubElement;
+	}
+
 	return (m_dW[ixSubElement]);
 }
 
@@ -313,6 +338,11 @@ double GridSpacingMixedGaussLobatto::GetNodeNormArea(int ix) const {
 double GridSpacingMixedGaussLobatto::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
+	// Case of a negative index
+	if (ixSubElement < 0) {
+		ixSubElement = m_nOrder + ixSubElement;
+	}
+
 	if (ixSubElement == 0) {
 		return (2.0 * m_dWL[ixSubElement]);
 	} else {
-- 
2.43.0


From db1b0674a08bc742f828824d771e99fca2cb1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 50/66] fix: kinetic energy of the shallow water equations from
 covariant velocities

---
 src/atm/GridPatch.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..5bc694f 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -966,19 +966,16 @@ double GridPatch::ComputeTotalEnergy(
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
 			double dUdotU =
-				+ m_dataContraMetric2DB(i,j,1)
+				+ m_dataContraMetric2DA(i,j,0)
 					* dataNode(UIx,i,j,k)
 					* dataNode(UIx,i,j,k)
-				- 2.0 * m_dataContraMetric2DA(i,j,1)
+				+ 2.0 * m_dataContraMetric2DA(i,j,1)
 					* dataNode(UIx,i,j,k)
 					* dataNode(VIx,i,j,k)
-				+ m_dataContraMetric2DA(i,j,0)
+				+ m_dataContraMetric2DB(i,j,1)
 					* dataNode(VIx,i,j,k)
 					* dataNode(VIx,i,j,k);
 
-			dUdotU *= m_dataJacobian2D(i,j)
-				* m_dataJacobian2D(i,j);
-
 			const double dKineticEnergy =
 				0.5 * dUdotU * (dataNode(HIx,i,j,k)
 						- m_dataTopography(i,j));
-- 
2.43.0


From 885036571797564c10510527994fbb877dd0b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 51/66] fix: potential enstrophy uses the Coriolis parameter of
 the grid

---
 src/atm/GridPatch.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index 5bc694f..d0fa1fa 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -1179,8 +1179,7 @@ double GridPatch::ComputeTotalPotentialEnstrophy(
 		for (int i = m_box.GetAInteriorBegin(); i < m_box.GetAInteriorEnd(); i++) {
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
-			const double dPlanetaryVorticity =
-				2.0 * phys.GetOmega() * sin(m_dataLat(i,j));
+			const double dPlanetaryVorticity = m_dataCoriolisF(i,j);
 
 			const double dAbsoluteVorticity =
 				m_dataVorticity(i,j,k) + dPlanetaryVorticity;
-- 
2.43.0


From 12b0f8bdf18ef659fcfbbf4b4db0ec8209a39406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 52/66] fix: error norms are relative to the test case, not to
 its sum with the reference state

---
 src/atm/Model.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index 1b55f1c..d7e5270 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -712,7 +712,6 @@ void Model::ComputeErrorNorms() {
 
 	// Construct the reference state
 	m_pGrid->CopyData(1, 2, DataType_State);
-	m_pGrid->AddReferenceState(2);
 
 	// Remove current state
 	DataArray1D<double> dDifference;
-- 
2.43.0


From 6cf1b4bb10dc06802dfd77d93f5679f922e735dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 53/66] fix: Held-Suarez pressures from the current rho theta
 alone

---
 src/atm/HeldSuarezPhysics.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/atm/HeldSuarezPhysics.cpp b/src/atm/HeldSuarezPhysics.cpp
index 2a6728e..1e8a007 100644
--- a/src/atm/HeldSuarezPhysics.cpp
+++ b/src/atm/HeldSuarezPhysics.cpp
@@ -105,22 +105,35 @@ void HeldSuarezPhysics::Perform(
 			}
 		}
 
+		// Interpolate RhoTheta to the surface
+		if ((pGrid->GetVarLocation(TIx) == DataLocation_Node) &&
+		    (pGrid->GetVerticalStaggering() !=
+				Grid::VerticalStaggering_Interfaces)
+		) {
+			pPatch->InterpolateNodeToREdge(TIx, 0);
+		}
+
 		// Loop over all horizontal nodes in GridPatch
 		for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) {
 		for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++) {
 
 			// Calculate surface pressure
+			double dSurfaceRhoTheta = dataREdge[TIx][i][j][0];
+			if (pGrid->GetVerticalStaggering() ==
+				Grid::VerticalStaggering_Interfaces
+			) {
+				dSurfaceRhoTheta = dataNode[TIx][i][j][0];
+			}
+
 			double dSurfacePressure =
-				phys.PressureFromRhoTheta(
-					dataREdge[RIx][i][j][0] * dataREdge[TIx][i][j][0]);
+				phys.PressureFromRhoTheta(dSurfaceRhoTheta);
 
 			// Loop over all levels in column
 			for (int k = 0; k < nRElements; k++) {
 
 				// Calculate pressure
 				double dPressure =
-					phys.PressureFromRhoTheta(
-						dataNode[RIx][i][j][k] * dataNode[TIx][i][j][k]);
+					phys.PressureFromRhoTheta(dataNode[TIx][i][j][k]);
 
 				double dSigma = dPressure / dSurfacePressure;
 
-- 
2.43.0


From 83770d2aaa8cb9e79af50afa1f753be4775dfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 54/66] fix: transform wind perturbations of restarts on the
 cubed sphere

---
 src/atm/GridPatchCSGLL.cpp | 101 +++++++++++++++----------------------
 1 file changed, 42 insertions(+), 59 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 6994dfb..6cc01f1 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -931,6 +931,8 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 ) {
 	static const int UIx = 0;
 	static const int VIx = 1;
+	static const int PIx = 2;
+	static const int RIx = 4;
 
 	// Initialize the data at each node
 	if (m_datavecStateNode.size() == 0) {
@@ -993,35 +995,25 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
         
-		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
+		// Potential temperature perturbations are weighted by density
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
-                dataStateNode(c,i,j,k) +=
-                    dataStateNode(4,i,j,k) * dPointwiseState[c];
-                //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
-             } else {
-                dataStateNode(c,i,j,k) +=
-                    dPointwiseState[c];
-            }
+		const double dThetaWeight =
+			(nComponents > RIx) ? dataStateNode(RIx,i,j,k) : 1.0;
+#else
+		const double dThetaWeight = 1.0;
 #endif
 
-#if defined(FORMULATION_THETA) || defined(FORMULATION_THETA_FLUX)
-            if (c == 2) {
-                dataStateNode(c,i,j,k) +=
-                    dPointwiseState[c];
-            } else {
-                dataStateNode(c,i,j,k) +=
-                    dPointwiseState[c];
-            }
-#endif
+		for (int c = 2; c < dPointwiseState.GetRows(); c++) {
+			dataStateNode(c,i,j,k) +=
+				((c == PIx) ? dThetaWeight : 1.0) * dPointwiseState[c];
 		}
-/*
-		// Transform state velocities
-		double dUlon;
-		double dUlat;
 
-		dUlon = dataStateNode(UIx,i,j,k);
-		dUlat = dataStateNode(VIx,i,j,k);
+		// Transform velocity perturbations
+		double dUlon = dPointwiseState[UIx];
+		double dUlat = dPointwiseState[VIx];
+
+		double dUa;
+		double dUb;
 
 #if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
 		dUlon /= phys.GetEarthRadius();
@@ -1032,8 +1024,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			m_dYNode[j],
 			m_box.GetPanel(),
 			dUlon, dUlat,
-			dataStateNode(UIx,i,j,k),
-			dataStateNode(VIx,i,j,k));
+			dUa, dUb);
 #else
 		dUlon *= phys.GetEarthRadius();
 		dUlat *= phys.GetEarthRadius();
@@ -1043,10 +1034,12 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			m_dYNode[j],
 			m_box.GetPanel(),
 			dUlon, dUlat,
-			dataStateNode(UIx,i,j,k),
-			dataStateNode(VIx,i,j,k));
+			dUa, dUb);
 #endif
-*/
+
+		dataStateNode(UIx,i,j,k) += dUa;
+		dataStateNode(VIx,i,j,k) += dUb;
+
 		// Evaluate tracer perturbations if any
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
 			dataTracers(c,i,j,k) +=
@@ -1071,35 +1064,25 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
+		// Potential temperature perturbations are weighted by density
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
-                dataStateREdge(c,i,j,k) +=
-                    dataStateREdge(4,i,j,k) * dPointwiseState[c];
-                //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
-             } else {
-                dataStateREdge(c,i,j,k) +=
-                    dPointwiseState[c];
-            }
+		const double dThetaWeight =
+			(nComponents > RIx) ? dataStateREdge(RIx,i,j,k) : 1.0;
+#else
+		const double dThetaWeight = 1.0;
 #endif
 
-#if defined(FORMULATION_THETA) || defined(FORMULATION_THETA_FLUX)
-            if (c == 2) {
-                dataStateREdge(c,i,j,k) +=
-                    dPointwiseState[c];
-            } else {
-                dataStateREdge(c,i,j,k) +=
-                    dPointwiseState[c];
-            }
-#endif
-        }
-/*
-		// Transform state velocities
-		double dUlon;
-		double dUlat;
+		for (int c = 2; c < dPointwiseState.GetRows(); c++) {
+			dataStateREdge(c,i,j,k) +=
+				((c == PIx) ? dThetaWeight : 1.0) * dPointwiseState[c];
+		}
 
-		dUlon = dataStateREdge(UIx,i,j,k);
-		dUlat = dataStateREdge(VIx,i,j,k);
+		// Transform velocity perturbations
+		double dUlon = dPointwiseState[UIx];
+		double dUlat = dPointwiseState[VIx];
+
+		double dUa;
+		double dUb;
 
 #if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
 		dUlon /= phys.GetEarthRadius();
@@ -1110,8 +1093,7 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			m_dYNode[j],
 			m_box.GetPanel(),
 			dUlon, dUlat,
-			dataStateREdge(UIx,i,j,k),
-			dataStateREdge(VIx,i,j,k));
+			dUa, dUb);
 #else
 		dUlon *= phys.GetEarthRadius();
 		dUlat *= phys.GetEarthRadius();
@@ -1121,10 +1103,11 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			m_dYNode[j],
 			m_box.GetPanel(),
 			dUlon, dUlat,
-			dataStateREdge(UIx,i,j,k),
-			dataStateREdge(VIx,i,j,k));
+			dUa, dUb);
 #endif
-*/
+
+		dataStateREdge(UIx,i,j,k) += dUa;
+		dataStateREdge(VIx,i,j,k) += dUb;
 	}
 	}
 	}
-- 
2.43.0


From aa6bfe14753e4078a6538e9b594cb5ad8c093bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 55/66] fix: no discontinuous penalty where levels are
 continuous across elements

---
 src/atm/LinearColumnOperatorFEM.cpp | 5 +++++
 src/atm/LinearColumnOperatorFEM.h   | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 9588c1e..d416b22 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1908,6 +1908,11 @@ void LinearColumnDiscPenaltyFEM::Apply(
 	int nStrideIn,
 	int nStrideOut
 ) const {
+	// Nodes are continuous across elements, no penalty needed
+	if (m_nRFiniteElements == 0) {
+		return;
+	}
+
 	// Apply distribution of penalty to left of finite element edge
 	m_opLeft.Apply(dDataIn, &(m_dBuffer[0]), nStrideIn, 1);
 	for (int a = 0; a < m_nRFiniteElements-1; a++) {
diff --git a/src/atm/LinearColumnOperatorFEM.h b/src/atm/LinearColumnOperatorFEM.h
index f5184cc..3e5740c 100644
--- a/src/atm/LinearColumnOperatorFEM.h
+++ b/src/atm/LinearColumnOperatorFEM.h
@@ -242,7 +242,9 @@ public:
 	///	<summary>
 	///		Default constructor.
 	///	</summary>
-	LinearColumnDiscPenaltyFEM()
+	LinearColumnDiscPenaltyFEM() :
+		m_nVerticalOrder(0),
+		m_nRFiniteElements(0)
 	{ }
 
 	///	<summary>
-- 
2.43.0


From 0ab79eaee07bd81248ef0cce5030da3e75e95311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 56/66] fix: array bounds checks accept one index past the end

---
 src/base/DataArray1D.h | 4 ++--
 src/base/DataArray2D.h | 8 ++++----
 src/base/DataArray3D.h | 8 ++++----
 src/base/DataArray4D.h | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 5cbd4bb..310d0c1 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -362,7 +362,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -374,7 +374,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize) {
+		if (i >= m_sSize) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index a60c866..fb8a07f 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -460,7 +460,7 @@ public:
 	inline const T & operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -475,7 +475,7 @@ public:
 	inline T & operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -518,7 +518,7 @@ public:
 	inline T const* operator()(size_t i) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -533,7 +533,7 @@ public:
 	inline T* operator()(size_t i) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if (i > m_sSize[0]) {
+		if (i >= m_sSize[0]) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index b0e4d60..4d2d1c4 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -493,7 +493,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -504,7 +504,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -547,7 +547,7 @@ public:
 	inline T const* operator()(size_t i, size_t j) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -563,7 +563,7 @@ public:
 	inline T* operator()(size_t i, size_t j) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 22d96e6..b0b2494 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -506,7 +506,7 @@ public:
 	///	</summary>
 	inline const T & operator()(size_t i, size_t j, size_t k, size_t l) const {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -518,7 +518,7 @@ public:
 	///	</summary>
 	inline T & operator()(size_t i, size_t j, size_t k, size_t l) {
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2]) || (l > m_sSize[3])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2]) || (l >= m_sSize[3])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -562,7 +562,7 @@ public:
 	inline T const* operator()(size_t i, size_t j, size_t k) const noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
@@ -579,7 +579,7 @@ public:
 	inline T* operator()(size_t i, size_t j, size_t k) noexcept {
 #endif
 #if defined(DEBUG_ARRAYOUTOFBOUNDS)
-		if ((i > m_sSize[0]) || (j > m_sSize[1]) || (k > m_sSize[2])) {
+		if ((i >= m_sSize[0]) || (j >= m_sSize[1]) || (k >= m_sSize[2])) {
 			_EXCEPTIONT("Array access out of bounds");
 		}
 #endif
-- 
2.43.0


From bdcc5faaadc68a7427a6d83cdfcd07ef8b705409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 57/66] fix: split explicit scheme reads any vertical dynamics
 as VerticalDynamicsFEM

---
 src/atm/TimestepSchemeSplitExp.cpp | 4 ++--
 src/atm/VerticalDynamics.h         | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 5dfeb41..abc373b 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -18,7 +18,7 @@
 #include "Model.h"
 #include "Grid.h"
 #include "HorizontalDynamics.h"
-#include "VerticalDynamicsFEM.h"
+#include "VerticalDynamics.h"
 
 ///////////////////////////////////////////////////////////////////////////////
 // Implements that time split RK3 scheme of Skamarock 2002
@@ -72,7 +72,7 @@ void TimestepSchemeSplitExp::Step(
 	HorizontalDynamics * pHorizontalDynamics = m_model.GetHorizontalDynamics();
 
 	// Get a copy of the VerticalDynamics
-	VerticalDynamicsFEM * pVerticalDynamics = (VerticalDynamicsFEM *) m_model.GetVerticalDynamics();
+	VerticalDynamics * pVerticalDynamics = m_model.GetVerticalDynamics();
 
 	// Check that vertical dynamics is set to full explicit evaluation
 	if (pVerticalDynamics->IsFullyExplicit() == false) {
diff --git a/src/atm/VerticalDynamics.h b/src/atm/VerticalDynamics.h
index 0260d5e..2cfa3e3 100644
--- a/src/atm/VerticalDynamics.h
+++ b/src/atm/VerticalDynamics.h
@@ -54,6 +54,13 @@ public:
 		return 2;
 	}
 
+	///	<summary>
+	///		Determine if no vertical terms are integrated implicitly.
+	///	</summary>
+	virtual bool IsFullyExplicit() const {
+		return true;
+	}
+
 public:
 	///	<summary>
 	///		Initializer.  Called prior to execution.
-- 
2.43.0


From f15a7f357ba1f5b5d7abd40a6837f193f1031757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 58/66] fix: outputs of an earlier run do not suppress the
 final output of a later one

---
 src/atm/OutputManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/OutputManager.cpp b/src/atm/OutputManager.cpp
index 4712aa4..02626c5 100644
--- a/src/atm/OutputManager.cpp
+++ b/src/atm/OutputManager.cpp
@@ -171,6 +171,9 @@ void OutputManager::InitialOutput(
 		PerformOutput(time);
 	}
 
+	// Outputs of earlier runs do not count
+	m_timeLastOutput = time;
+
 	m_timeNextOutput = time;
 	m_timeNextOutput += m_timeOutputFrequency;
 }
-- 
2.43.0


From 7b7ba02e7ad458989598d74e8642efec82dd736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 59/66] fix: times in an open reference output file stay
 relative to the reference of the file

---
 src/atm/OutputManagerReference.cpp | 15 ++++++++-------
 src/atm/OutputManagerReference.h   |  6 ++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index d766950..9dbbb44 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -348,10 +348,12 @@ bool OutputManagerReference::OpenFile(
 			_EXCEPTIONT("Error creating \"time\" variable");
 		}
 
+		m_timeReference = model.GetStartTime();
+
 		std::string strUnits =
-			"days since " + model.GetStartTime().ToDateString();
+			"days since " + m_timeReference.ToDateString();
 
-		std::string strCalendarName = model.GetStartTime().GetCalendarName();
+		std::string strCalendarName = m_timeReference.GetCalendarName();
 
 		m_varTime->add_att("long_name", "time");
 		m_varTime->add_att("units", strUnits.c_str());
@@ -570,12 +572,11 @@ void OutputManagerReference::Output(
 
 	// Add new time
 	if (nRank == 0) {
-		// Days since midnight of the date on which the simulation starts
-		const Time & timeStart = m_grid.GetModel().GetStartTime();
+		// Days since midnight of the reference date of the active file
 		double dTimeDays =
-			((time - timeStart)
-				+ static_cast<double>(timeStart.GetSecond())
-				+ static_cast<double>(timeStart.GetMicroSecond()) * 1.0e-6)
+			((time - m_timeReference)
+				+ static_cast<double>(m_timeReference.GetSecond())
+				+ static_cast<double>(m_timeReference.GetMicroSecond()) * 1.0e-6)
 			/ 86400.0;
 		m_varTime->set_cur(m_ixOutputTime);
 		m_varTime->put(&dTimeDays, 1);
diff --git a/src/atm/OutputManagerReference.h b/src/atm/OutputManagerReference.h
index b28c501..9eb78d7 100644
--- a/src/atm/OutputManagerReference.h
+++ b/src/atm/OutputManagerReference.h
@@ -145,6 +145,12 @@ protected:
 	///	</summary>
 	bool m_fFreshOutputFile;
 
+	///	<summary>
+	///		Start time of the simulation when the active file was opened
+	///		(times in the file count from midnight of its date).
+	///	</summary>
+	Time m_timeReference;
+
 	///	<summary>
 	///		Number of reference points in the X direction.
 	///	</summary>
-- 
2.43.0


From c4928017ba5acdd9fd9b90d159a5f0523b11956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 60/66] fix: keep accumulated 2D user data in restart files

---
 src/atm/GridPatch.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index d0fa1fa..831df8f 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -391,6 +391,18 @@ void GridPatch::InitializeDataLocal(
 		}
 	}
 
+	// 2D User data, which is accumulated over the whole of a simulation
+	if (metaUserData.GetUserData2DItemCount() != 0) {
+		m_dataUserData2D.SetDataType(DataType_Auxiliary2D);
+		m_dataUserData2D.SetDataLocation(DataLocation_None);
+		m_dataUserData2D.SetSize(
+			metaUserData.GetUserData2DItemCount(),
+			m_box.GetATotalWidth(),
+			m_box.GetBTotalWidth());
+
+		m_dcActiveState.PushDataChunk(&m_dataUserData2D);
+	}
+
 	// Allocate active and buffer state data
 	if (fAllocateActiveState) {
 		m_dcActiveState.Allocate();
@@ -462,18 +474,6 @@ void GridPatch::InitializeDataLocal(
 	m_dcAuxiliary.PushDataChunk(&m_dataRichardson);
 	m_dcAuxiliary.PushDataChunk(&m_dataSurfacePressure);
 
-	// 2D User data
-	if (metaUserData.GetUserData2DItemCount() != 0) {
-		m_dataUserData2D.SetDataType(DataType_Auxiliary2D);
-		m_dataUserData2D.SetDataLocation(DataLocation_None);
-		m_dataUserData2D.SetSize(
-			metaUserData.GetUserData2DItemCount(),
-			m_box.GetATotalWidth(),
-			m_box.GetBTotalWidth());
-
-		m_dcAuxiliary.PushDataChunk(&m_dataUserData2D);
-	}
-
 	// Allocate auxiliary data
 	if (fAllocateAuxiliary) {
 		m_dcAuxiliary.Allocate();
-- 
2.43.0


From 85f08b1747e86fcacec62fb0bf2a16071ec87c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 61/66] fix: output of grids staggered on interfaces
 interpolates on their own elements

---
 src/atm/GridPatchCSGLL.cpp        | 22 +++++++++++++++++++++-
 src/atm/GridPatchCartesianGLL.cpp | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 6cc01f1..77c5577 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1460,7 +1460,27 @@ void GridPatchCSGLL::InterpolateData(
 			if (eVerticalDiscType ==
 				Grid::VerticalDiscretization_FiniteElement
 			) {
-				if (eDataLocation == DataLocation_Node) {
+				if (m_grid.GetVerticalStaggering() ==
+					Grid::VerticalStaggering_Interfaces
+				) {
+					// Levels are the Gauss-Lobatto nodes of the elements
+					const DataArray1D<double> & dREtaLevels =
+						m_grid.GetREtaLevels();
+
+					DataArray1D<double> dREtaMid(dREtaLevels.GetRows()-1);
+					for (int k = 0; k < dREtaMid.GetRows(); k++) {
+						dREtaMid[k] =
+							0.5 * (dREtaLevels[k] + dREtaLevels[k+1]);
+					}
+
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Interfaces,
+						m_nVerticalOrder - 1,
+						dREtaMid,
+						dREtaLevels,
+						dREta);
+
+				} else if (eDataLocation == DataLocation_Node) {
 					opInterp.Initialize(
 						LinearColumnInterpFEM::InterpSource_Levels,
 						m_nVerticalOrder,
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 7fee7ad..136ffaf 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1823,7 +1823,27 @@ void GridPatchCartesianGLL::InterpolateData(
 			if (eVerticalDiscType ==
 				Grid::VerticalDiscretization_FiniteElement
 			) {
-				if (eDataLocation == DataLocation_Node) {
+				if (m_grid.GetVerticalStaggering() ==
+					Grid::VerticalStaggering_Interfaces
+				) {
+					// Levels are the Gauss-Lobatto nodes of the elements
+					const DataArray1D<double> & dREtaLevels =
+						m_grid.GetREtaLevels();
+
+					DataArray1D<double> dREtaMid(dREtaLevels.GetRows()-1);
+					for (int k = 0; k < dREtaMid.GetRows(); k++) {
+						dREtaMid[k] =
+							0.5 * (dREtaLevels[k] + dREtaLevels[k+1]);
+					}
+
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Interfaces,
+						m_nVerticalOrder - 1,
+						dREtaMid,
+						dREtaLevels,
+						dREta);
+
+				} else if (eDataLocation == DataLocation_Node) {
 					opInterp.Initialize(
 						LinearColumnInterpFEM::InterpSource_Levels,
 						m_nVerticalOrder,
-- 
2.43.0


From a654301a917a22788a14ec1c04ad07c2b37948c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 62/66] fix: finite volume output on planes interpolates to the
 levels asked for

---
 src/atm/GridPatchCartesianGLL.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 136ffaf..e745fd4 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1868,8 +1868,25 @@ void GridPatchCartesianGLL::InterpolateData(
 				eVerticalDiscType ==
 				Grid::VerticalDiscretization_FiniteVolume
 			) {
-#pragma message "Finite volume interpolation not implemented correctly"
-				opInterp.InitializeIdentity(nRElements);
+				if (eDataLocation == DataLocation_Node) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Levels,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else if (eDataLocation == DataLocation_REdge) {
+					opInterp.Initialize(
+						LinearColumnInterpFEM::InterpSource_Interfaces,
+						1,
+						m_grid.GetREtaLevels(),
+						m_grid.GetREtaInterfaces(),
+						dREta);
+
+				} else {
+					_EXCEPTIONT("Invalid DataLocation");
+				}
 
 			// Invalid vertical discretization type
 			} else {
-- 
2.43.0


From 5a8089989dcd2434372e01bc5970fc61560bc34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 63/66] fix: Jacobian of the pressure gradient of V2 vertical
 dynamics uses the metric of its interface

---
 src/atm/VerticalDynamicsFEMV2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 8eb455a..6a2d411 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -3290,7 +3290,7 @@ void VerticalDynamicsFEMV2::BuildJacobianF_LOR_RhoTheta_Pi(
 		double dRHSWCoeffA = 
 			m_dStateREdge[PIx][k]
 			* phys.GetR()
-			/ (m_dColumnDerivRNode[k][2]
+			/ (m_dColumnDerivRREdge[k][2]
 				* m_dStateREdge[RIx][k]
 				* phys.GetCv());
 
-- 
2.43.0


From db633cfab4610dae6614dc0794b6849feff22d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 64/66] fix: implicit columns refuse staggering on interfaces
 instead of crashing

---
 src/atm/VerticalDynamicsFEM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 029003f..0bd039d 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -3075,7 +3075,9 @@ void VerticalDynamicsFEM::BuildJacobianF_LOR_RhoTheta_Pi(
 #endif
 
 	// Only support Lorenz staggering
-	if (pGrid->GetVarLocation(PIx) == DataLocation_REdge) {
+	if ((pGrid->GetVarLocation(PIx) == DataLocation_REdge) ||
+	    (pGrid->GetVarLocation(WIx) == DataLocation_Node)
+	) {
 		_EXCEPTIONT("Invalid call to BuildJacobianF_LOR_RhoTheta_Pi");
 	}
 
-- 
2.43.0


From 9a8e69db3dbcd97df940c7984df11631b84ffaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 65/66] fix: V2 dynamics refuse staggering on interfaces
 instead of crashing

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 5 +++++
 src/atm/VerticalDynamicsFEMV2.cpp   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index a9bc2f7..0908aa4 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -73,6 +73,11 @@ void HorizontalDynamicsFEMV2::Initialize() {
 	if (pGrid == NULL) {
 		_EXCEPTIONT("Grid must be of type GridGLL");
 	}
+	if (pGrid->GetVerticalStaggering() ==
+		Grid::VerticalStaggering_Interfaces
+	) {
+		_EXCEPTIONT("Not implemented: Staggering on interfaces");
+	}
 
 	// Only horizontal order 4 supported
 	const int nHorizontalOrder = 4;
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 6a2d411..2def81b 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -114,6 +114,11 @@ void VerticalDynamicsFEMV2::Initialize() {
 	if (pGrid == NULL) {
 		_EXCEPTIONT("Invalid grid -- expected GridGLL");
 	}
+	if (pGrid->GetVerticalStaggering() ==
+		Grid::VerticalStaggering_Interfaces
+	) {
+		_EXCEPTIONT("Not implemented: Staggering on interfaces");
+	}
 
 	// Physical constants
 	const PhysicalConstants & phys = m_model.GetPhysicalConstants();
-- 
2.43.0


From 1b8b9f2bc0327c0a757fc16d4fe7ee18ee5be178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 66/66] fix: staggering on interfaces refuses orders and levels
 below two instead of dividing by zero

---
 src/atm/GridGLL.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index b7f7099..81cecaa 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -386,6 +386,12 @@ void GridGLL::InitializeVerticalCoordinate() {
 	// Initialize the vertical coordinate (INT staggering)
 	if (m_eVerticalStaggering == VerticalStaggering_Interfaces) {
 
+		// Finite elements have nodes at both ends
+		if ((nNodesPerFiniteElement < 2) || (m_nRElements < 2)) {
+			_EXCEPTIONT("Staggering on interfaces requires vertorder "
+				"and levels of at least two");
+		}
+
 		// Check number of levels
 		if ((m_nRElements - 1) % (nNodesPerFiniteElement - 1) != 0) {
 			_EXCEPTIONT("(vertorder - 1) must divide (levels - 1) equally");
-- 
2.43.0

