From fa5c42fa81327b0e71925a197975813a8b9f6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 01/15] fix: A * x has as many entries as A has rows

mult(result, A, x) sized its result after x, so a non-square A gave a
result of the wrong dimension (and out-of-range writes or indices when A
has more rows than columns).
---
 src/common/sla.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..29b39c4 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -701,7 +701,7 @@ inline void mult(dvector &result, const cmatrix &A, const cvector &x) {
   int xind;
   double xval;
 
-  result.resize(x.size());
+  result.resize(A.size1());
 
   FOR_EACH(xi, x.data) {
     xind = xi->index;
@@ -729,19 +729,19 @@ inline void mult(cvector &result, const cmatrix &A, const cvector &x) {
     cvector tmp;
     cvector accum;
 
-    accum.resize(x.size());
+    accum.resize(A.size1());
     FOR_EACH(xi, x.data) {
       xind = xi->index;
       xval = xi->value;
       col_end = A.data.begin() + A.col_starts[xind + 1];
-      tmp.resize(x.size());
+      tmp.resize(A.size1());
       for (Ai = A.data.begin() + A.col_starts[xind]; Ai != col_end; Ai++) {
         tmp.push_back(Ai->index, xval * Ai->value);
       }
       accum += tmp;
     }
 
-    result.resize(x.size());
+    result.resize(A.size1());
     FOR_EACH(ai, accum.data) {
       if (fabs(ai->value) > SPARSE_EPS) {
         result.data.push_back(*ai);
-- 
2.43.0


From 10b54392679554658dcdf9d7005da6e92b11fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 02/15] fix: a sawtooth backup never replaces a bound with a
 looser one

---
 src/pomdpBounds/SawtoothUpperBound.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..42a2e63 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -75,7 +75,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
   double newUBVal = getNewUBValue(cn, maxUBActionP);
-  setUBForNode(cn, newUBVal, true);
+  // backups of the corner interpolation can be weaker than the initial
+  // fast informed bound, so never replace a bound with a looser one
+  setUBForNode(cn, std::min(cn.ubVal, newUBVal), true);
 }
 
 // returns the upper bound that the (belief,value) pair c induces on b.
@@ -280,7 +282,7 @@ void SawtoothUpperBound::addPoint(BVPair *bv) {
     }
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = bv->v;
+    cornerPts(wc) = std::min(cornerPts(wc), bv->v);
     delete bv;
   }
 }
@@ -297,7 +299,7 @@ void SawtoothUpperBound::addPoint(const belief_vector &b, double val) {
 
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = val;
+    cornerPts(wc) = std::min(cornerPts(wc), val);
   }
 }
 
-- 
2.43.0


From d635aa6a551233d25f33f73f0f191c2690d16506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 03/15] fix: the hash key of an all-zero vector is not the
 previous vector's key

---
 src/common/MatrixUtils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..9c5ba6a 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -193,13 +193,14 @@ inline const char *hashable(const dvector &b) {
   static char *buf = NULL;
   static unsigned int n = 0;
 
-  if (b.size() > n) {
+  if (NULL == buf || b.size() > n) {
     n = b.size();
     if (NULL != buf) delete[] buf;
     buf = new char[n * HASH_VECTOR_LEN + 1];
   }
 
   char *pos = buf;
+  *pos = '\0';  // a vector with no stored entries has an empty key
   FOR(i, b.size()) {
     pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
   }
@@ -210,13 +211,14 @@ inline const char *hashable(const cvector &b) {
   static char *buf = NULL;
   static unsigned int n = 0;
 
-  if (b.size() > n) {
+  if (NULL == buf || b.size() > n) {
     n = b.size();
     if (NULL != buf) delete[] buf;
     buf = new char[n * HASH_VECTOR_LEN + 1];
   }
 
   char *pos = buf;
+  *pos = '\0';  // a vector with no stored entries has an empty key
   FOR_CV(b) {
     pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
                     CV_VAL(b));
-- 
2.43.0


From 44755655e13eba3a9883d25260ec2ee87da91c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 04/15] fix: a drawn outcome always has positive probability,
 also for a zero draw or round-off

---
 src/bounds/BoundPairCore.cc |  2 +-
 src/common/MatrixUtils.h    | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..6342186 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -67,9 +67,9 @@ int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      result = o;  // also the answer if round-off leaves r positive at the end
       r -= e->obsProb;
       if (r <= 0) {
-        result = o;
         break;
       }
     }
diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 9c5ba6a..f9ff7e9 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -159,7 +159,10 @@ inline int argmax_elt(const cvector &v) {
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  int last = 0;  // last outcome of positive probability
   FOR(i, b.size()) {
+    if (b(i) <= 0) continue;
+    last = i;
     r -= b(i);
     if (r <= 0) return i;
   }
@@ -170,12 +173,15 @@ inline int chooseFromDistribution(const dvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  int last = 0;  // last outcome of positive probability
   FOR_CV(b) {
+    if (CV_VAL(b) <= 0) continue;
+    last = CV_INDEX(b);
     r -= CV_VAL(b);
     if (r <= 0) return CV_INDEX(b);
   }
@@ -186,7 +192,7 @@ inline int chooseFromDistribution(const cvector &b) {
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline const char *hashable(const dvector &b) {
-- 
2.43.0


From b7bfaa5fd7836bf53b6becfec126c5467b5898db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 05/15] fix: the sum of two times is normalised when the
 microseconds add up to one second

---
 src/common/zmdpCommonTime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/zmdpCommonTime.cc b/src/common/zmdpCommonTime.cc
index 1f41e04..75c9df5 100644
--- a/src/common/zmdpCommonTime.cc
+++ b/src/common/zmdpCommonTime.cc
@@ -77,7 +77,7 @@ timeval operator+(const timeval &a, const timeval &b) {
   timeval result;
   result.tv_sec = a.tv_sec + b.tv_sec;
   result.tv_usec = a.tv_usec + b.tv_usec;
-  if (result.tv_usec > 1000000) {
+  if (result.tv_usec >= 1000000) {
     result.tv_sec++;
     result.tv_usec -= 1000000;
   }
-- 
2.43.0


From 9711ad9ed55c0a5250117f32a47bce5be0a27241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 06/15] fix: bootstrap resampling never reads past the end of
 the sample

---
 src/common/MatrixUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index f9ff7e9..0397082 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -284,7 +284,8 @@ inline void calc_bootstrap_mean_quantile(const dvector &vals, double alpha,
   for (int i = 0; i < numBootstrapSamples; i++) {
     sum = 0.0;
     for (int j = 0; j < n; j++) {
-      int k = static_cast<int>(unit_rand() * n);
+      // unit_rand() may return exactly 1
+      int k = std::min(static_cast<int>(unit_rand() * n), n - 1);
       sum += vals(k);
     }
     bvals(i) = sum / n;
-- 
2.43.0


From 0b27e2b589ea1e7748c589a902fe507dca860679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 07/15] fix: a config file's last line counts without a
 newline, and an overlong line is an error

---
 src/common/zmdpConfig.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..887359b 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -81,7 +81,13 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
   while (1) {
     in.getline(buf, sizeof(buf));
     lnum++;
-    if (in.eof()) break;
+    // the last line need not end with a newline
+    if (in.eof() && '\0' == buf[0]) break;
+    if (in.fail() && !in.eof()) {
+      fprintf(stderr, "ERROR: %s:%d: line too long\n", sourceName.c_str(),
+              lnum);
+      exit(EXIT_FAILURE);
+    }
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
-- 
2.43.0


From dedd07e28372fe6c1a4ef474cec8c2c748b5eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 08/15] fix: vectors with large components have distinct hash
 keys

---
 src/common/slaMatrixUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/slaMatrixUtils.h b/src/common/slaMatrixUtils.h
index f281787..c90e867 100644
--- a/src/common/slaMatrixUtils.h
+++ b/src/common/slaMatrixUtils.h
@@ -40,7 +40,7 @@
 
 // FIX adjusting this based on observed bounds violations
 #define HASH_VECTOR_PRECISION "%6d:%15.9lf "
-#define HASH_VECTOR_LEN (24)
+#define HASH_VECTOR_LEN (64)  // room for components up to about 1e40
 
 #if 0
 #define HASH_VECTOR_PRECISION "%5d:%6.4lf "
-- 
2.43.0


From fbc1fdcaae201878f094aeb1c491f756706b7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 09/15] fix: white space at the end of a Cassandra alpha file
 does not add a plane

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..fe204b6 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -691,12 +691,17 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  // (a file normally ends with white space, so reaching its end is noticed
+  // only by failing to read another action)
+  while (inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-      inFile >> val;
+      if (!(inFile >> val)) {
+        cerr << "ERROR: " << inFileName << ": expected " << pomdp->numStates
+             << " values in every alpha vector" << endl;
+        exit(EXIT_FAILURE);
+      }
       plane.alpha.push_back(i, val);
     }
     addLBPlane(new LBPlane(plane));
-- 
2.43.0


From da3e72bd8531992dfcb3870b1dbb746a161819a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 10/15] fix: an empty set of planes can be written

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index fe204b6..10e95b8 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -557,7 +557,7 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
   out << "  planes => [" << endl;
 
   PlaneSet::const_iterator pi = planes.begin();
-  FOR(i, planes.size() - 1) {
+  FOR(i, planes.empty() ? 0 : planes.size() - 1) {
     (*pi)->write(out, useMaxPlanesMasking);
     out << "," << endl;
     pi++;
-- 
2.43.0


From 31e9e2f9044f193056f1776b1d6daaf08463f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 11/15] fix: reset in an MDP transition row replaces the whole
 row

---
 src/parsers/pomdp_spec.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..dae2f49 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,7 +972,8 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
+        for (j = 0; j < gNumStates; j++)
+          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From d60c3c31e921bcb1be5b707aaaae3c96fc7c0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 12/15] fix: the fast parser stops when a preamble statement is
 missing

---
 src/parsers/FastParser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..5a03ed7 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -201,6 +201,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
-- 
2.43.0


From 68e21bd1702dfd85e237af610d33d2314327e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 13/15] fix: zero entries of a reward matrix override earlier
 reward specifications

---
 src/parsers/imm-reward.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..5a0347b 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -260,7 +260,8 @@ void enterImmReward(int cur_state, int next_state, int obs, double value) {
 } /* enterImmReward */
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node) {
-  int i, j, k;
+  int i, j, k, numCols;
+  double val;
   Matrix m;
 
   assert(node != NULL);
@@ -296,13 +297,20 @@ void irAddToDecisionTree(Imm_Reward_List node) {
 
     case ir_matrix:
       m = node->rep.matrix;
+      /* zero entries count too: they override earlier specifications */
+      numCols =
+          (gProblemType == POMDP_problem_type) ? gNumObservations : gNumStates;
       for (i = 0; i < m->num_rows; i++) {
-        for (j = 0; j < m->row_length[i]; j++) {
-          k = m->row_start[i] + j;
+        k = m->row_start[i];
+        for (j = 0; j < numCols; j++) {
+          val = 0.0;
+          if (k < m->row_start[i] + m->row_length[i] && m->col[k] == j) {
+            val = m->mat_val[k++];
+          }
           if (gProblemType == POMDP_problem_type) { /* pomdp */
-            dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+            dtAdd(node->action, node->cur_state, i, j, val);
           } else { /* mdp */
-            dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+            dtAdd(node->action, i, j, WILDCARD_SPEC, val);
           }
         }
       }
-- 
2.43.0


From c98643ad5d7c534026ab81e96408d3a97000edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 14/15] fix: a model without reward specifications has reward
 zero instead of aborting

---
 src/parsers/imm-reward.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index 5a0347b..f3a597f 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -352,6 +352,9 @@ void doneImmReward() {
 /**********************************************************************/
 double getImmediateReward(int action, int cur_state, int next_state, int obs) {
 #if USE_DECISION_TREE
+  /* the tree is not initialized yet if the model has no reward
+   * specifications, in which case every reward is zero */
+  dtInit(gNumActions, gNumStates, gNumObservations);
   return dtGet(action, cur_state, next_state, obs);
 #else
   Imm_Reward_List temp = gImmRewardList;
-- 
2.43.0


From 9b1d8a04627606d87c754848a52808a171e799dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 15/15] Revert "fix: reset in an MDP transition row replaces
 the whole row"

This reverts commit 31e9e2f9044f193056f1776b1d6daaf08463f305.
---
 src/parsers/pomdp_spec.y | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index dae2f49..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,8 +972,7 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        for (j = 0; j < gNumStates; j++)
-          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
+        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0

