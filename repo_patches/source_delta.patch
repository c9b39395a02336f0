From cd163ca0f5a28c2a7cfac9607b5ed794354b1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 01/42] fix: pass the real workspace to zgelss in
 MiddleSizeMatrix::pseudoSolve

The complex LAPACK least squares driver takes RWORK before INFO. Without it
the routine used the info integer as workspace and an undefined pointer as
info.
---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..8b30392 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,10 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    // The complex variant needs an additional real workspace of 5*min(n,m)
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From dfff7f628ea788989c64e7361fe0951865113549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 02/42] fix: do not turn a face between two ghost elements into
 a periodic face

A face of which neither neighbour is owned is visited once per neighbour;
the second visit must only extend the type of faces that are periodic.
---
 kernel/Base/MeshManipulator_Impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..f780c3a 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1834,7 +1834,9 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                     if (face->getFaceType() == Geometry::FaceType::INTERNAL) {
                         face->setFaceType(
                             Geometry::FaceType::SUBDOMAIN_BOUNDARY);
-                    } else {
+                    } else if (face->getFaceType() ==
+                               Geometry::FaceType::PERIODIC_BC) {
+                        // A face between two ghost elements is visited twice
                         face->setFaceType(
                             Geometry::FaceType::PERIODIC_SUBDOMAIN_BC);
                     }
-- 
2.43.0


From 13f32a32a2c7c7639fa69a3a8a2cbff789403dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:46 +0000
Subject: [PATCH 03/42] fix: orient a curved edge by its end nodes

---
 kernel/Base/Edge.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/Edge.cpp b/kernel/Base/Edge.cpp
index 8e8e683..cabc37b 100644
--- a/kernel/Base/Edge.cpp
+++ b/kernel/Base/Edge.cpp
@@ -59,9 +59,12 @@ void Edge::addElement(Element* element, std::size_t edgeNumber) {
     std::vector<std::size_t> indices =
         element->getReferenceGeometry()->getCodim2EntityLocalIndices(
             edgeNumber);
-    indices[0] = element->getPhysicalGeometry()->getNodeIndex(indices[0]);
-    indices[1] = element->getPhysicalGeometry()->getNodeIndex(indices[1]);
-    orientation_.push_back((indices[0] < indices[1] ? 0 : 1));
+    // A curved edge has more nodes, the end points are the first and last one
+    std::size_t first =
+        element->getPhysicalGeometry()->getNodeIndex(indices.front());
+    std::size_t last =
+        element->getPhysicalGeometry()->getNodeIndex(indices.back());
+    orientation_.push_back((first < last ? 0 : 1));
 
     if (numberOfConformingDOFOnTheEdge_.size() == 0) {
         numberOfConformingDOFOnTheEdge_.resize(element->getNumberOfUnknowns(),
-- 
2.43.0


From 2a86a057af1059f7abf51e127e92010e357f05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:46 +0000
Subject: [PATCH 04/42] fix: give conforming cube face functions the axes and
 signs of their neighbours

---
 .../FE/BasisFunctions3DH1ConformingCube.cpp   | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..c55f258 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -94,7 +94,7 @@ BasisFunction3DEdgeCube_0::BasisFunction3DEdgeCube_0(
         "This class is intended for edges aligned in the x-direction");
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_0::eval(
@@ -142,7 +142,7 @@ BasisFunction3DEdgeCube_1::BasisFunction3DEdgeCube_1(
         "This class is intended for edges aligned in the y-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_1::eval(
@@ -190,7 +190,7 @@ BasisFunction3DEdgeCube_2::BasisFunction3DEdgeCube_2(
         "This class is intended for edges aligned in the z-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_2::evalDeriv0(
@@ -238,9 +238,14 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
+    if (std::max(node0, node1) - std::min(node0, node1) != 2) {
+        // The first direction of the face is the last direction of the cube
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
+    mirroring1_ = node0 < node1 ? -1 : 1;  // choices about mirroring need only
                                            // be consistent for one face
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
 
@@ -290,8 +295,13 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    if (std::max(node0, node1) - std::min(node0, node1) != 1) {
+        // The first direction of the face is the last direction of the cube
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
 }
 
@@ -348,8 +358,13 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring1_ = node0 < node2 ? 1 : -1;
+    if (std::max(node0, node1) - std::min(node0, node1) != 1) {
+        // The first direction of the face is the last direction of the cube
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring1_ = node0 < node2 ? -1 : 1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
 }
 
-- 
2.43.0


From e53c424d2c2cc39da7656d9d35d2b57c71d5c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:46 +0000
Subject: [PATCH 05/42] fix: use quadrilateral face functions on the
 quadrilateral faces of a prism

---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..46ce2ed 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,72 +695,72 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
-- 
2.43.0


From b4060db90ec08c443724ad9a9ad8b148269274b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 06/42] fix: basisFunctionNormal of an unknown uses the basis
 of that unknown

---
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..bc433e9 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From a064e9bfaa52bbb6b188cfb0e9ad449ae70c44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:43 +0000
Subject: [PATCH 07/42] fix: size the caches of a PhysicalFace for every face
 it is set to

---
 kernel/Base/PhysicalFace_Impl.h | 63 ++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index bc433e9..2ab29de 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -846,45 +846,44 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    // The next face may join other elements than the previous one
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
-        }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
         }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
-- 
2.43.0


From 3b7f2213082f1fbaeba14aeba21a5fca447433f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:00 +0000
Subject: [PATCH 08/42] fix: side-indexed normal cross products call the cross
 products

---
 kernel/Base/PhysicalFace_Impl.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 2ab29de..64f89f6 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -429,11 +429,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result);
+        return basisFunctionNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[0], result);
 }
 
 template <std::size_t DIM>
@@ -443,12 +443,12 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result, unknown);
+        return basisFunctionNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[unknown], result,
-                               unknown);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
+                                    unknown);
 }
 
 template <std::size_t DIM>
@@ -537,11 +537,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result);
+        return basisFunctionUnitNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[0], result);
 }
 template <std::size_t DIM>
 inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
@@ -550,12 +550,12 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result, unknown);
+        return basisFunctionUnitNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[unknown], result,
-                                   unknown);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
+                                        unknown);
 }
 
 template <std::size_t DIM>
-- 
2.43.0


From f86a866f298cc4ab9086694783df4b2a998baeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:09 +0000
Subject: [PATCH 09/42] fix: evaluate each unknown of the solution with its own
 basis functions

---
 kernel/Base/PhysicalElement_Impl.h | 38 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index ffbeafb..36c23dc 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -100,19 +100,19 @@ inline double PhysicalElement<DIM>::basisFunction(std::size_t i,
          ++j) {
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
+                basisFunctionValue[unknown][j] = getTransformation(unknown)->transform(
                     theElement_->basisFunction(j, quadratureRule_,
                                                quadraturePointIndex_,
                                                faceToElementMap_, unknown),
                     *this);
             } else {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
+                basisFunctionValue[unknown][j] = getTransformation(unknown)->transform(
                     theElement_->basisFunction(j, quadratureRule_,
                                                quadraturePointIndex_, unknown),
                     *this);
             }
         } else {
-            basisFunctionValue[unknown][j] = transform_[unknown]->transform(
+            basisFunctionValue[unknown][j] = getTransformation(unknown)->transform(
                 theElement_->basisFunction(j, pointReference_, unknown), *this);
         }
     }
@@ -167,21 +167,21 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    getTransformation(unknown)->transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    getTransformation(unknown)->transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
             basisFunctionDeriv_[unknown][j] =
-                transform_[unknown]->transformDeriv(
+                getTransformation(unknown)->transformDeriv(
                     theElement_->basisFunctionDeriv(j, pointReference_,
                                                     unknown),
                     *this);
@@ -247,14 +247,14 @@ inline void PhysicalElement<DIM>::basisFunction(
                         faceToElementMap_, vectorBasisFunctionValue[unknown][j],
                         unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        getTransformation(unknown)->transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 } else {
                     theElement_->basisFunction(
                         j, quadratureRule_, quadraturePointIndex_,
                         vectorBasisFunctionValue[unknown][j], unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        getTransformation(unknown)->transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 }
             } else {
@@ -262,7 +262,7 @@ inline void PhysicalElement<DIM>::basisFunction(
                                            vectorBasisFunctionValue[unknown][j],
                                            unknown);
                 vectorBasisFunctionValue[unknown][j] =
-                    transform_[unknown]->transform(
+                    getTransformation(unknown)->transform(
                         vectorBasisFunctionValue[unknown][j], *this);
             }
         }
@@ -318,20 +318,20 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    getTransformation(unknown)->transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    getTransformation(unknown)->transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionCurl_[unknown][j] = transform_[unknown]->transformCurl(
+            basisFunctionCurl_[unknown][j] = getTransformation(unknown)->transformCurl(
                 theElement_->basisFunctionCurl(j, pointReference_, unknown),
                 *this);
         }
@@ -383,20 +383,20 @@ inline const double& PhysicalElement<DIM>::basisFunctionDiv(
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    getTransformation(unknown)->transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    getTransformation(unknown)->transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionDiv_[unknown][j] = transform_[unknown]->transformDiv(
+            basisFunctionDiv_[unknown][j] = getTransformation(unknown)->transformDiv(
                 theElement_->basisFunctionDiv(j, pointReference_, unknown),
                 *this);
         }
@@ -429,7 +429,7 @@ inline const LinearAlgebra::MiddleSizeVector&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVb = theElement_->convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVb) * basisFunction(iB);
+            solution[iV] += data(iVb) * basisFunction(iB, iV);
         }
     }
     return solution;
@@ -459,7 +459,7 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM> >&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB);
+            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB, iV);
         }
     }
     return solutionDeriv;
@@ -616,6 +616,10 @@ inline const Base::CoordinateTransformation<DIM>*
     PhysicalElement<DIM>::getTransformation(std::size_t unknown) {
     logger.assert_debug(unknown < theElement_->getNumberOfUnknowns(),
                         "Unknown % does not exist", unknown);
+    // unknowns that were not given a transformation use that of the first one
+    if (unknown >= transform_.size() || !transform_[unknown]) {
+        return transform_[0].get();
+    }
     return transform_[unknown].get();
 }
 
-- 
2.43.0


From 823c07bda42ba5a763ea843f1ae19f4fa971b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 10/42] fix: all-level traversal of a LevelTree ends after its
 deepest level

end() was the position after the last descendant of the last root, which is in
the middle of the traversal when another tree is deeper, and decrementing the
past-the-end iterator did not return to the last entry of the deepest level.
---
 kernel/Base/LevelTree_Impl.h | 12 ++++++++----
 kernel/Base/TreeIterator.h   |  6 ++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 811b277..d53349b 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -137,12 +137,14 @@ TreeIterator<V> LevelTree<V>::end() {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
@@ -176,12 +178,14 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
         while ((*result.ptr_)->hasChild()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index ce96767..f19b3ae 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -605,10 +605,16 @@ class TreeIterator {
             "iterator has to be dereferenceable to be incrementable");
         moveToNextOnLevel();
         if (ptr_ == end_) {
+            // if this was the last level, stay behind its last entry so we can
+            // move back to it with --
+            TreeIterator backup = *this;
             --ptr_;
             std::size_t level = (*ptr_)->getLevel() + depthCounter_ + 1;
             // will move to end_ again if this was the last level
             moveToFirstOnLevel(level);
+            if (ptr_ == end_) {
+                *this = backup;
+            }
         }
     }
 
-- 
2.43.0


From b43ce2a8b3d8b244850996d6253e5c42cc525c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:37 +0000
Subject: [PATCH 11/42] fix: traverse entries of a LevelTree that reside in
 multiple levels

Pre- and post-order traversal visited stretched leaves once in one direction
and once per level in the other, decrementing kept the level counter of
another entry, and positions of one entry on different levels compared equal.
---
 kernel/Base/LevelTree_Impl.h | 20 ++++----------
 kernel/Base/TreeIterator.h   | 51 +++++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index d53349b..7ea6d4d 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -121,9 +121,7 @@ TreeIterator<V> LevelTree<V>::begin() {
     TreeIterator<V> result =
         entries_.front()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::POSTORDER) {
-        while ((*result.ptr_)->hasChild()) {
-            result.moveToChild(0);
-        }
+        result.moveToFirstDescendant();
     }
     return result;
 }
@@ -138,9 +136,7 @@ TreeIterator<V> LevelTree<V>::end() {
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
-        while ((*result.ptr_)->hasChild()) {
-            result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
-        }
+        result.moveToLastDescendant();
     }
     if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
         result.moveToLastOnLevel(maxLevel_ - 1);
@@ -162,9 +158,7 @@ TreeIteratorConst<V> LevelTree<V>::begin() const {
     TreeIterator<V> result =
         entries_.front()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::POSTORDER) {
-        while ((*result.ptr_)->hasChild()) {
-            result.moveToChild(0);
-        }
+        result.moveToFirstDescendant();
     }
     return result;
 }
@@ -179,9 +173,7 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
-        while ((*result.ptr_)->hasChild()) {
-            result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
-        }
+        result.moveToLastDescendant();
     }
     if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
         result.moveToLastOnLevel(maxLevel_ - 1);
@@ -322,9 +314,7 @@ template <typename V>
 TreeIterator<V> LevelTree<V>::beginPostOrder() {
     TreeIterator<V> result =
         entries_.front()->getIterator(TreeTraversalMethod::POSTORDER);
-    while ((*result.ptr_)->hasChild()) {
-        result.moveToChild(0);
-    }
+    result.moveToFirstDescendant();
     return result;
 }
 
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index f19b3ae..1f394be 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -263,7 +263,8 @@ class TreeIterator {
         // more elaborate
         if (ptr_ != end_ && traversalMethod_ == i.traversalMethod_ &&
             i.ptr_ != i.end_) {
-            return *ptr_ == *i.ptr_;
+            // an entry that resides in multiple levels has multiple positions
+            return *ptr_ == *i.ptr_ && depthCounter_ == i.depthCounter_;
         }
         // a == b implies ++a == ++b, and --a == --b implies a == b, but the
         // reverses are not required and having one end() for all
@@ -354,6 +355,20 @@ class TreeIterator {
         --depthCounter_;
     }
 
+    //! move to the first position below this one (if any)
+    void moveToFirstDescendant() {
+        while ((*ptr_)->hasChild() || canIncreaseCounter()) {
+            moveToChild(0);
+        }
+    }
+
+    //! move to the last position below this one (if any)
+    void moveToLastDescendant() {
+        while ((*ptr_)->hasChild() || canIncreaseCounter()) {
+            moveToChild((*ptr_)->getNumberOfChildren() - 1);
+        }
+    }
+
     void setMaxDepthCounter() {
         depthCounter_ = (ptr_ == end_ ? 0 : (*ptr_)->getDepth() - 1);
     }
@@ -442,6 +457,14 @@ class TreeIterator {
         return (*ptr_)->getLevel() + depthCounter_ == level;
     }
 
+    //! move past the end, remembering that this is the last on its level. Later
+    //! siblings of an entry that resides in multiple levels might not reach
+    //! this level
+    void moveBehindLevel() {
+        ++ptr_;
+        end_ = ptr_;
+    }
+
     //! move to next node on the same level
     void moveToNextOnLevel() {
         logger.assert_debug(ptr_ != end_,
@@ -457,7 +480,7 @@ class TreeIterator {
             // if we still can't move to the next entry, restore the old pointer
             // so we can move back to the last on the level with --
             *this = backup;
-            ++ptr_;
+            moveBehindLevel();
         } else {
             ++ptr_;
             depthCounter_ = 0;
@@ -466,7 +489,7 @@ class TreeIterator {
                 // next sibling and/or up to another parent if it fails
                 // initially so if it fails this was the last on the level
                 *this = backup;
-                ++ptr_;
+                moveBehindLevel();
             } else {
                 end_ = (*ptr_)->getSiblings().end();
             }
@@ -478,6 +501,7 @@ class TreeIterator {
         if (ptr_ == end_) {
             // the increment operator made sure we end up at the back
             --ptr_;
+            end_ = (*ptr_)->getSiblings().end();
         } else {
             //--begin() is undefined so we don't have to care about restoring
             // the current position
@@ -501,7 +525,8 @@ class TreeIterator {
     }
 
     bool hasPreviousOnLevel() {
-        if (ptr_ == end_ || !(*ptr_)->isFirstSibling()) {
+        if (ptr_ == end_ ||
+            (!(*ptr_)->isFirstSibling() && depthCounter_ == 0)) {
             return true;
         }
         std::size_t level = (*ptr_)->getLevel() + depthCounter_;
@@ -510,8 +535,12 @@ class TreeIterator {
                (*duplicate.ptr_)->isFirstSibling()) {
             duplicate.moveToParent();
         }
-        return !(*duplicate.ptr_)->isFirstSibling() &&
-               (--duplicate).moveDownToLevelEnd(level);
+        if ((*duplicate.ptr_)->isFirstSibling()) {
+            return false;
+        }
+        --duplicate.ptr_;
+        duplicate.depthCounter_ = 0;
+        return duplicate.moveDownToLevelEnd(level);
     }
 
     //! move to next node in the pre-order traversal
@@ -540,9 +569,7 @@ class TreeIterator {
         if (ptr_ == end_ ||
             (!(*ptr_)->isFirstSibling() && depthCounter_ == 0)) {
             --ptr_;
-            while ((*ptr_)->hasChild()) {
-                moveToChild((*ptr_)->getNumberOfChildren() - 1);
-            }
+            moveToLastDescendant();
         } else {
             logger.assert_debug(
                 !(*ptr_)->isRoot() || depthCounter_ > 0,
@@ -557,9 +584,7 @@ class TreeIterator {
                             "can only increment dereferenceable iterators");
         if (!(*ptr_)->isLastSibling() && depthCounter_ == 0) {
             ++ptr_;
-            while ((*ptr_)->hasChild()) {
-                moveToChild(0);
-            }
+            moveToFirstDescendant();
         } else if ((*ptr_)->isRoot() && depthCounter_ == 0) {
             ++ptr_;
         } else {
@@ -579,7 +604,7 @@ class TreeIterator {
         } else if (ptr_ == end_) {
             --ptr_;
         } else {
-            while ((*ptr_)->isFirstSibling()) {
+            while ((*ptr_)->isFirstSibling() || canDecreaseCounter()) {
                 moveToParent();
             }
             --ptr_;
-- 
2.43.0


From 84a25edc9813d45dcaf1627d8c0655ddd8626338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 12/42] fix: refuse malformed, out of range and negative
 numbers as option values

---
 kernel/Base/CommandLineOptions.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/CommandLineOptions.h b/kernel/Base/CommandLineOptions.h
index 0bfdc35..d8da8c7 100644
--- a/kernel/Base/CommandLineOptions.h
+++ b/kernel/Base/CommandLineOptions.h
@@ -42,6 +42,7 @@
 #include <functional>
 #include <map>
 #include <vector>
+#include <cstring>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -151,7 +152,10 @@ typename std::enable_if<
     std::istringstream arg(*p);
     T retVal = 0;
     arg >> retVal;
-    if (!arg.eof()) {
+    // converting a negative number to an unsigned type does not fail
+    const bool negative =
+        std::is_unsigned<T>::value && std::strchr(*p, '-') != nullptr;
+    if (arg.fail() || !arg.eof() || negative) {
         std::string error = "Argument could not be converted to ";
         if (std::is_unsigned<T>::value) error += "unsigned ";
 
-- 
2.43.0


From 0e5064622a9693ce6de1b196e5c234fbc9a485e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 13/42] fix: evaluate the stages of the TVD and
 Bogacki-Shampine schemes at the right times

---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 kernel/Base/TimeIntegration/RK2TVD.cpp          | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From c83e0b2037d02d6d7d778ce98460f037e61f1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 14/42] fix: out of range read when a local indexing includes
 no unknowns

---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
-- 
2.43.0


From 1f3db30868bc2a69a60198cd085afc06eef993dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 15/42] fix: offset of unknowns that are not included on the
 right of a face

---
 kernel/Utilities/FaceLocalIndexing.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.h b/kernel/Utilities/FaceLocalIndexing.h
index 9954f6b..983be93 100644
--- a/kernel/Utilities/FaceLocalIndexing.h
+++ b/kernel/Utilities/FaceLocalIndexing.h
@@ -79,9 +79,11 @@ class FaceLocalIndexing {
             hpgem::logger.assert_debug(
                 right_.getElement() != nullptr,
                 "Asking for the right side of an internal face");
-            // Also works for non included unknowns, as
-            // left_.getNumberOfDoFs() == 0 for such an unknown
-            return left_.getNumberOfDoFs() + right_.getDoFOffset(unknown);
+            const std::size_t offset = right_.getDoFOffset(unknown);
+            if (offset == ElementLocalIndexing::UNKNOWN_NOT_INCLUDED) {
+                return offset;
+            }
+            return left_.getNumberOfDoFs() + offset;
         }
     }
 
-- 
2.43.0


From 1d0d6ccd77b52675b281b6cb0eaf03706b11d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:04 +0000
Subject: [PATCH 16/42] fix: evaluate each unknown of a solution with its own
 basis functions

---
 kernel/Base/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/Element.h b/kernel/Base/Element.h
index 6eec26d..508466b 100644
--- a/kernel/Base/Element.h
+++ b/kernel/Base/Element.h
@@ -787,7 +787,7 @@ Element::SolutionVector Element::getSolution(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVB) * basisFunction(iB, p);
+            solution[iV] += data(iVB) * basisFunction(iB, p, iV);
         }
     }
     return solution;
@@ -813,7 +813,7 @@ std::vector<LinearAlgebra::SmallVector<DIM>> Element::getSolutionGradient(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            auto derivative = basisFunctionDeriv(iB, p);
+            auto derivative = basisFunctionDeriv(iB, p, iV);
             jacobean.solve(derivative);
             solution[iV] += data(iVB) * derivative;
         }
-- 
2.43.0


From ca3eda8fcabcd65e6a29cf95a32e53727b53a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:04 +0000
Subject: [PATCH 17/42] fix: count all functions on the left when indexing
 those on the right of a face

---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 69881792fd46b7af3fcc72917075306f067b8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:48 +0000
Subject: [PATCH 18/42] fix: adaptive time step is not a number after a step
 without error

---
 kernel/Base/HpgemAPISimplified_Impl.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..3aa00d5 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -853,9 +853,15 @@ void HpgemAPISimplified<DIM>::computeOneTimeStep(
                           1. / ptrButcherTableau_->getOrder());
         }
     }
-    dtEstimate = 0.9 * dt *
-                 std::pow(maximumRelativeError / currentError * solutionNorm,
-                          1. / ptrButcherTableau_->getOrder());
+    if (currentError > 0) {
+        dtEstimate =
+            0.9 * dt *
+            std::pow(maximumRelativeError / currentError * solutionNorm,
+                     1. / ptrButcherTableau_->getOrder());
+    } else {
+        // without an error (e.g. at rest) only dtMax limits the next time step
+        dtEstimate = std::numeric_limits<double>::infinity();
+    }
     logger(VERBOSE, "dt: %; new estimate: %", dt, dtEstimate);
     time += dt;
 }
-- 
2.43.0


From 68bb667cc80184eeb6be211a9f8d9c571992201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:29 +0000
Subject: [PATCH 19/42] fix: remove face, edge and node functions when an
 unknown becomes discontinuous

useDefaultDGBasisFunctions(order, unknown) left the numbers of functions that
an earlier assignment of a conforming basis had given to the faces, edges and
nodes for the unknown.
---
 kernel/Base/MeshManipulator_Impl.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index f780c3a..564c086 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -239,6 +239,17 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    // All basis functions are local to the element, remove those that were
+    // assigned to the faces, edges and nodes.
+    for (Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Node *node : getNodesList(IteratorType::GLOBAL)) {
+        node->setLocalNumberOfBasisFunctions(0, unknown);
+    }
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
-- 
2.43.0


From 5a419cc58474188e353f0f37bdd4b20b28f70027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:20 +0000
Subject: [PATCH 20/42] fix: exchange of a global vector with some of the
 unknowns

GlobalPetscVector read and wrote time integration vectors as if all unknowns
were in the index and had the same number of basis functions, and passed
negative positions to VecSetValues, which PETSc does not accept.
---
 kernel/Utilities/GlobalVector.cpp | 123 ++++++++++++------------------
 1 file changed, 49 insertions(+), 74 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..5f14110 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -167,27 +167,27 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
 
     const Base::MeshManipulatorBase* mesh = indexing_.getMesh();
     logger.assert_always(mesh != nullptr, "No mesh to for the GlobalVector");
+    logger.assert_always(indexing_.isIncludedInIndex(solutionVar),
+                         "Unknown % is not included in the index", solutionVar);
 
     LinearAlgebra::MiddleSizeVector elementData;
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
         indexing_.getGlobalIndices(element, localToGlobal);
-        elementData.resize(element->getTotalNumberOfBasisFunctions());
-        for (std::size_t j = 0; j < element->getNumberOfUnknowns(); ++j) {
-            for (std::size_t i = 0; i < element->getNumberOfBasisFunctions(j);
-                 ++i) {
-
-                if (j == solutionVar) {
-                    elementData[element->convertToSingleIndex(i, solutionVar)] =
-                        element->getTimeIntegrationData(timeIntegrationVectorId,
-                                                        solutionVar, i);
-                } else {
-                    localToGlobal[element->convertToSingleIndex(i, j)] = -1;
-                }
-            }
+        // Position of the unknown among those in the index
+        std::size_t offset = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            if (unknown == solutionVar) break;
+            offset += element->getNumberOfBasisFunctions(unknown);
         }
-        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
-                                elementData.data(), INSERT_VALUES);
+        elementData.resize(element->getNumberOfBasisFunctions(solutionVar));
+        for (std::size_t i = 0; i < elementData.size(); ++i) {
+            elementData[i] = element->getTimeIntegrationData(
+                timeIntegrationVectorId, solutionVar, i);
+        }
+        int ierr =
+            VecSetValues(b_, elementData.size(), localToGlobal.data() + offset,
+                         elementData.data(), INSERT_VALUES);
         CHKERRV(ierr);
     }
 
@@ -209,13 +209,20 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     LinearAlgebra::MiddleSizeVector elementData;
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
-        std::size_t numberOfBasisFunctions =
-            element->getTotalNumberOfBasisFunctions();
         indexing_.getGlobalIndices(element, localToGlobal);
-        int ierr = VecSetValues(
-            b_, numberOfBasisFunctions, localToGlobal.data(),
-            element->getTimeIntegrationVector(timeIntegrationVectorId).data(),
-            INSERT_VALUES);
+        elementData.resize(localToGlobal.size());
+        // Only the unknowns in the index have a position in localToGlobal
+        std::size_t index = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            for (std::size_t i = 0;
+                 i < element->getNumberOfBasisFunctions(unknown);
+                 ++i, ++index) {
+                elementData[index] = element->getTimeIntegrationData(
+                    timeIntegrationVectorId, unknown, i);
+            }
+        }
+        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
+                                elementData.data(), INSERT_VALUES);
         CHKERRV(ierr);
     }
 
@@ -279,6 +286,16 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
              ++index)  // for every variable iV
         {
+            if (!indexing_.isIncludedInIndex(index)) {
+                // No new values, keep the old ones
+                for (std::size_t i = 0;
+                     i < (*it)->getNumberOfBasisFunctions(index); ++i) {
+                    localData[runningTotal] = (*it)->getTimeIntegrationData(
+                        timeIntegrationVectorId, index, i);
+                    ++runningTotal;
+                }
+                continue;
+            }
             std::size_t nElementBasis =
                 (*it)->getLocalNumberOfBasisFunctions(index);
             int elementBasis0 = indexing_.getGlobalIndex((*it), index);
@@ -370,6 +387,8 @@ void GlobalPetscVector::writeTimeIntegrationVector(
 
     const Base::MeshManipulatorBase* mesh = indexing_.getMesh();
     logger.assert_always(mesh != nullptr, "No mesh to for the GlobalVector");
+    logger.assert_always(indexing_.isIncludedInIndex(unknown),
+                         "Unknown % is not included in the index", unknown);
 
     std::vector<PetscInt> positions;
     std::size_t totalPositions = 0;
@@ -403,61 +422,17 @@ void GlobalPetscVector::writeTimeIntegrationVector(
     for (Base::MeshManipulatorBase::ConstElementIterator it =
              mesh->elementColBegin(Base::IteratorType::GLOBAL);
          it != end; ++it) {
-        LinearAlgebra::MiddleSizeVector localData(
-            (*it)->getTotalNumberOfBasisFunctions());
-        std::size_t runningTotal = 0;
-        for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
-             ++index) {
-            std::size_t nElementBasis =
-                (*it)->getLocalNumberOfBasisFunctions(index);
-            int elementBasis0 = indexing_.getGlobalIndex((*it), index);
-            for (std::size_t i = 0; i < nElementBasis; ++i) {
-                localData[runningTotal] = data[elementBasis0 + i];
-                ++runningTotal;
-            }
-
-            for (std::size_t i = 0;
-                 i < (*it)->getPhysicalGeometry()->getNumberOfFaces(); ++i) {
-                std::size_t nFaceBasis =
-                    (*it)->getFace(i)->getLocalNumberOfBasisFunctions(index);
-                int faceBasis0 =
-                    indexing_.getGlobalIndex((*it)->getFace(i), index);
-                for (std::size_t j = 0; j < nFaceBasis; ++j) {
-                    localData[runningTotal] = data[faceBasis0 + j];
-                    ++runningTotal;
-                }
-            }
-            for (std::size_t i = 0; i < (*it)->getNumberOfEdges(); ++i) {
-                std::size_t nEdgeBasis =
-                    (*it)->getEdge(i)->getLocalNumberOfBasisFunctions(index);
-                int edgeBasis0 =
-                    indexing_.getGlobalIndex((*it)->getEdge(i), index);
-                for (std::size_t j = 0; j < nEdgeBasis; ++j) {
-                    localData[runningTotal] = data[edgeBasis0 + j];
-                    ++runningTotal;
-                }
-            }
-            if (mesh->dimension() > 1) {
-                for (std::size_t i = 0; i < (*it)->getNumberOfNodes(); ++i) {
-                    std::size_t nNodeBasis =
-                        (*it)->getNode(i)->getLocalNumberOfBasisFunctions(
-                            index);
-                    int nodeBasis0 =
-                        indexing_.getGlobalIndex((*it)->getNode(i), index);
-                    for (std::size_t j = 0; j < nNodeBasis; ++j) {
-                        localData[runningTotal] = data[nodeBasis0 + j];
-                        ++runningTotal;
-                    }
-                }
-            }
+        indexing_.getGlobalIndices(*it, localPositions);
+        // Position of the unknown among those in the index
+        std::size_t offset = 0;
+        for (std::size_t index : indexing_.getIncludedUnknowns()) {
+            if (index == unknown) break;
+            offset += (*it)->getNumberOfBasisFunctions(index);
         }
-        logger.assert_debug(localData.size() == runningTotal,
-                            "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
-            singleUnknownData[i] =
-                localData[(*it)->convertToSingleIndex(i, unknown)];
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < singleUnknownData.size(); ++i) {
+            singleUnknownData[i] = data[localPositions[offset + i]];
         }
         (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, unknown,
                                            singleUnknownData);
-- 
2.43.0


From 8e58d16aecfdc95a4edbb6387188c2a047932108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 21/42] fix: look up face coupled rows by unknown when refusing
 their sparsity estimate

---
 kernel/Utilities/SparsityEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..588780e 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -385,7 +385,9 @@ std::pair<std::vector<int>, std::vector<int>>
              ++i) {
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(
+                        rowIndexing_.getIncludedUnknowns()[i])) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0


From 42aa9d83c07d55a6b269569f439fa3af0ce92f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:44 +0000
Subject: [PATCH 22/42] fix: read linear tetrahedra from gmsh meshes

No node order was known for them, so that every mesh with 4-node tetrahedra
was refused.
---
 applications/Preprocessor/lib/gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..a4079b3 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,8 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    // Tetrahedrons do not require reordering
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 493d2dae59877a9acedc5b074467322216739b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 23/42] fix: use the node numbers of a gmsh mesh

Elements and periodic links refer to nodes by number, but the numbers were
taken for positions in the file. Nodes in another order, or with gaps in the
numbering, gave a different mesh or an access outside the list of nodes.
---
 applications/Preprocessor/lib/gmsh.cpp | 16 ++++++++++++----
 applications/Preprocessor/lib/gmsh.h   |  5 +++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index a4079b3..2a64595 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -299,11 +299,21 @@ void GmshReader::readNodes(double tol) {
         temp.nodeId =
             nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
         temp.coordinate = std::vector<double>{x, y, z};
+        logger.assert_always(
+            nodeIndices_.emplace(nodeTag, nodes_.size()).second,
+            "Multiple nodes with number %", nodeTag);
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
 }
 
+std::size_t GmshReader::getNodeIndex(std::size_t nodeTag) const {
+    auto node = nodeIndices_.find(nodeTag);
+    logger.assert_always(node != nodeIndices_.end(),
+                         "There is no node with number %", nodeTag);
+    return node->second;
+}
+
 void GmshReader::readElements() {
 
     // Reordering of the nodes
@@ -366,8 +376,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(getNodeIndex(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -466,8 +475,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[getNodeIndex(node2)] = getNodeIndex(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..52b2e7f 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -99,6 +99,9 @@ class GmshReader final : public MeshSource2 {
     void readPhysicalNames();
     /// Read a Nodes section
     void readNodes(double tol = 1e-12);
+    /// Get the position in nodes_ of the node with a number used by gmsh. These
+    /// numbers may be in any order and may have gaps.
+    std::size_t getNodeIndex(std::size_t nodeTag) const;
     /// Read an Elements section
     void readElements();
     /// Read an ElementData section
@@ -135,6 +138,8 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// Position in nodes_ by the number of the node in the file
+    std::map<std::size_t, std::size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From 0211e9f47c34d40f41f789cad9d66afa8578e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 24/42] fix: read gmsh elements without tags

The number of remaining tags wrapped around to a huge value, so that the rest
of the file was read as tags of the element.
---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 2a64595..a241a34 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -367,7 +367,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From a590c6926a5c47af0dd1568b53eae11fb3d9c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 25/42] fix: gmsh mesh with physical names for its boundary
 only

Without a name for any group of the dimension of the mesh, the list of names
was accessed outside its bounds. The zones are then called after their number,
as in a mesh without names.
---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index a241a34..1e82eff 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -502,7 +502,7 @@ void GmshReader::convertRawElements() {
 
         if (element.physicalNameTag == Element::NO_TAG) {
             newElement.zoneName = "Main";
-        } else if (!physicalNames_.empty()) {
+        } else if (physicalNames_.size() > dimension_) {
             newElement.zoneName =
                 physicalNames_[dimension_][element.physicalNameTag];
         } else {
-- 
2.43.0


From 80f968a7640f23d17455b99c9fb4920be13a1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:16 +0000
Subject: [PATCH 26/42] fix: write VTK output of piecewise constant solutions

With polynomial order 0 the Lagrange elements were filled with order - 1
intermediate points per edge, that is with a wrapped around count, far beyond
their storage. Use the linear elements, there are no VTK elements of order 0.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..6be2535 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -493,7 +493,7 @@ inline void VTKSpecificTimeWriter<0>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::LINE] =
             std::make_shared<VTKLine>();
     } else {
@@ -504,7 +504,7 @@ inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TRIANGLE] =
             std::make_shared<VTKTriangle>();
         elementMapping_[Geometry::ReferenceGeometryType::SQUARE] =
@@ -519,7 +519,7 @@ inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<3>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TETRAHEDRON] =
             std::make_shared<VTKTetra>();
         elementMapping_[Geometry::ReferenceGeometryType::CUBE] =
-- 
2.43.0


From 9942bc2376b55ef0e42c5ed0fc5cc110f40d5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:30 +0000
Subject: [PATCH 27/42] fix: do not step beyond the final time

Without output frames dt is not adapted to the time interval, and even when it
is, rounding in the accumulated time could leave it just below the final time,
after which a complete extra time step was made.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index 3aa00d5..b40947e 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -1038,7 +1038,7 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                 time, maximumRelativeError,
                 std::min(std::min(dt, outputTime - time), finalTime - time));
         } else {
-            computeOneTimeStep(time, dt);
+            computeOneTimeStep(time, std::min(dt, finalTime - time));
         }
 
         if (time > outputTime - 1e-12) {
-- 
2.43.0


From df358121fb8327671f796a5308213b637933340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:34 +0000
Subject: [PATCH 28/42] fix: describe tensors in VTK output with their nine
 components

The nine padded components of every tensor were announced as three, so that
the array did not have the size that the file described.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 6be2535..fe50176 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From 4b1bdb316f4898088f352e67870e44844afc7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:34 +0000
Subject: [PATCH 29/42] fix: write the times of VTK output in full precision

With six digits nearby time steps late in a simulation were indistinguishable.
---
 kernel/Output/VTKTimeDependentWriter_Impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kernel/Output/VTKTimeDependentWriter_Impl.h b/kernel/Output/VTKTimeDependentWriter_Impl.h
index 1ae4332..3e26ee4 100644
--- a/kernel/Output/VTKTimeDependentWriter_Impl.h
+++ b/kernel/Output/VTKTimeDependentWriter_Impl.h
@@ -43,6 +43,8 @@
 
 #include "Base/CommandLineOptions.h"
 
+#include <limits>
+
 namespace hpgem {
 template <std::size_t DIM>
 Output::VTKTimeDependentWriter<DIM>::VTKTimeDependentWriter(
@@ -77,6 +79,8 @@ Output::VTKTimeDependentWriter<DIM>::VTKTimeDependentWriter(
             << (Detail::isBigEndian() ? "BigEndian" : "LittleEndian") << "\">"
             << std::endl;
         masterFile_ << "  <Collection>" << std::endl;
+        // nearby times must not be written as the same number
+        masterFile_.precision(std::numeric_limits<double>::max_digits10);
     }
 }
 
-- 
2.43.0


From be58185a789f266d05a9e9ecda4bbeb38bcf8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 30/42] fix: penalise the jump of the normal flux in the IP
 flux of DivDGMax

The test function was replaced by the conjugate of the trial function, so the
entries did not depend on the test function and the form was not bilinear.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..446b5bc 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -645,7 +645,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From 3b825d369bcda7015f4d0238140641b76fa251ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 31/42] fix: lift the normal jump in DivDGMax with the
 permittivity on both sides

The right side was weighted with the constant of the curl term.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 446b5bc..84e4a44 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -963,7 +963,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From da18485c53572dcf5c71f581fbca122ee765049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:54 +0000
Subject: [PATCH 32/42] fix: use the right functions in DivDGMax's field
 integral on a right side

Both the basis functions and the coefficients of the field on a face are
numbered without those of the potential.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 84e4a44..abb1990 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -424,7 +424,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 2667da3bf095281d7bb4d455ab8a86724864f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:54 +0000
Subject: [PATCH 33/42] fix: take the coefficients of the right field in
 DivDGMax's energy flux

The coefficients of the field on a face do not include those of the potential,
so that this read beyond the vector.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index abb1990..6cac1f3 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,8 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 5deee6b0e054bf80634359dc5897075c0d07d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:46 +0000
Subject: [PATCH 34/42] fix: undo the orthogonalisation per side in DGMax's
 energy flux

On an internal face the whole vector was passed to the solve with the left
mass matrix, which has another size, and the right coefficients were taken
behind the number of right instead of left degrees of freedom.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..60589d2 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -655,7 +655,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -669,7 +669,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                 face.getPtrElementRight()->getNumberOfBasisFunctions();
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -677,7 +677,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
-- 
2.43.0


From f1cef2b1d741a5517ceed8b375fcf635e34e5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:59 +0000
Subject: [PATCH 35/42] fix: add the Brezzi boundary vector in DivDGMax only
 with its matrix

With an IP flux for the tangential jump and a Brezzi flux elsewhere the
boundary data was penalised twice, with no counterpart in the matrix.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 6cac1f3..c874be9 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From d66c80250575eeb494b91ea018ea3ec9bf56ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:33 +0000
Subject: [PATCH 36/42] fix: number DG-Max's harmonic unknowns by process

With several processes and two unknowns the global block layout puts rows on
processes that do not own them (and waits forever); the other solvers already
use the layout by process.
---
 applications/DG-Max/Algorithms/HarmonicSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/HarmonicSolver.cpp b/applications/DG-Max/Algorithms/HarmonicSolver.cpp
index 7d27797..eb87b25 100644
--- a/applications/DG-Max/Algorithms/HarmonicSolver.cpp
+++ b/applications/DG-Max/Algorithms/HarmonicSolver.cpp
@@ -212,7 +212,7 @@ HarmonicSolver<DIM>::Workspace::Workspace(
     // Initialize the basis functions and indices after creating the matrices,
     // so that the matrices are not yet assembled.
     discretization_->initializeBasisFunctions(*mesh_);
-    indexing_.reset(mesh_, Utilities::GlobalIndexing::BLOCKED_GLOBAL);
+    indexing_.reset(mesh_, Utilities::GlobalIndexing::BLOCKED_PROCESSOR);
     resultVector_.reinit();
 
     PetscErrorCode err;
-- 
2.43.0


From 6e733bcf126c761f90845468b5ba53ec50c8788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 37/42] fix: sum the error norms of DG-Max over all processes

Each process reported the error in its own part of the mesh.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 10 ++++++++++
 .../DG-Max/Algorithms/DivDGMaxDiscretization.cpp       |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 60589d2..9f4e176 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -812,6 +812,16 @@ std::map<typename DGMaxDiscretizationBase::NormType, double>
         }
     }
 
+#ifdef HPGEM_USE_MPI
+    // Each processor only integrated over its own part of the mesh
+    double squaredNorms[3] = {l2Norm, hCurlNorm, dgNorm};
+    MPI_Allreduce(MPI_IN_PLACE, squaredNorms, 3, MPI_DOUBLE, MPI_SUM,
+                  MPI_COMM_WORLD);
+    l2Norm = squaredNorms[0];
+    hCurlNorm = squaredNorms[1];
+    dgNorm = squaredNorms[2];
+#endif
+
     std::map<NormType, double> result;
     if (l2Wanted) result[L2] = sqrt(l2Norm);
     if (hcurlWanted) result[HCurl] = sqrt(hCurlNorm);
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index c874be9..1457129 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -1275,6 +1275,10 @@ double DivDGMaxDiscretization<DIM>::computeL2Error(
                                              electricField);
             });
     }
+#ifdef HPGEM_USE_MPI
+    // Each processor only integrated over its own elements
+    MPI_Allreduce(MPI_IN_PLACE, &error, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
     return std::sqrt(error);
 }
 
-- 
2.43.0


From 6ab772dac99c3bac337e179a19b987d7ef4d8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 38/42] fix: write the field of DGMax also next to a projector

writeFields took the coefficients of all unknowns, and the curl without the
number of the unknown, both of which fail when the projector adds a second
unknown. It also ignored which time integration vector it was asked to write.
---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 9f4e176..ced1f83 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -539,7 +539,7 @@ typename DGMaxDiscretization<DIM>::Fields
         physicalElement.basisFunction(i, phi, 0);
         result.electricField += coefficients[i] * phi;
         result.electricFieldCurl +=
-            coefficients[i] * physicalElement.basisFunctionCurl(i);
+            coefficients[i] * physicalElement.basisFunctionCurl(i, 0);
     }
     const ElementInfos& userData = ElementInfos::get(*element);
 
@@ -591,10 +591,13 @@ void DGMaxDiscretization<DIM>::writeFields(
     };
 
     writer.template writeMultiple<Fields>(
-        [this](Base::Element* element,
-               const Geometry::PointReference<DIM>& point, std::size_t) {
+        [this, timeIntegrationVectorId](
+            Base::Element* element, const Geometry::PointReference<DIM>& point,
+            std::size_t) {
+            // Only the field, there may be a second unknown for the projector
             LinearAlgebra::MiddleSizeVector coefficients =
-                element->getTimeIntegrationVector(0);
+                element->getTimeIntegrationSubvector(timeIntegrationVectorId,
+                                                     0);
             // When using the Hermitian system we applied a rescaling of the
             // solution coefficients to use y = L^H x (LL^H = M is the Cholesky
             // decomposition of the mass matrix and x the actual coefficients).
-- 
2.43.0


From 3b994095c96b1a321dc8f6bd842898ca8fef2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 39/42] fix: offer the eigenvalue solvers of DG-Max no more
 vectors than they can hold

SLEPc refuses an initial space larger than its working space, so asking for
fewer eigenvalues at a later k-point aborted the program.
---
 applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp    | 7 +++++--
 applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
index 1f099a7..b229005 100644
--- a/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxEigenvalue.cpp
@@ -659,8 +659,11 @@ void DGMaxEigenvalue<DIM>::SolverWorkspace::solve(
     }
 
     // Use solution of previous time as starting point for the next one.
-    error = EPSSetInitialSpace(solver_, eigenpairs_.size(),
-                               eigenpairs_.getRawEigenvectors());
+    // There can be more of them than the solver has space for when fewer
+    // eigenvalues are requested than were found before.
+    error = EPSSetInitialSpace(
+        solver_, std::min(eigenpairs_.size(), targetNumberOfEigenvalues),
+        eigenpairs_.getRawEigenvectors());
     CHKERRABORT(PETSC_COMM_WORLD, error);
 
     // Final Options //
diff --git a/applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp b/applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp
index e7d670a..7af20ed 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxEigenvalue.cpp
@@ -100,8 +100,12 @@ class DivDGMaxEigenvalue<DIM>::SolverWorkspace {
                                PETSC_DECIDE);
         CHKERRABORT(PETSC_COMM_WORLD, err);
 
-        EPSSetInitialSpace(solver_, eigenpairs_.size(),
-                           eigenpairs_.getRawEigenvectors());
+        // There can be more of them than the solver has space for when fewer
+        // eigenvalues are requested than were found before.
+        err = EPSSetInitialSpace(
+            solver_, std::min(eigenpairs_.size(), numberOfEigenvalues),
+            eigenpairs_.getRawEigenvectors());
+        CHKERRABORT(PETSC_COMM_WORLD, err);
 
         // Allow for overrides
         err = EPSSetFromOptions(solver_);
-- 
2.43.0


From 4dcb0f3e5c3827ef6f0915608604525c822aef29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 40/42] fix: make the triangle and prism refinement maps map
 onto their sub-elements

The maps that split one edge of a triangle, and their prism versions, did not
map the reference element onto the sub-element with the listed nodes, and some
of their tables listed the wrong sub-element for a part of a face.
---
 .../Mappings/RefinementMapsForTriangle.h      | 28 +++++++++++--------
 .../RefinementMapsForTriangularPrism.h        | 26 +++++++++++------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
index d7a6e73..f04c20e 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangle.h
@@ -259,7 +259,7 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1]};
+        return {(p[0] + subElementIndex * (1. - p[1])) / 2., p[1]};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -269,7 +269,8 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.}}, {{0., 1.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{0.5, 0.}}, {{-0.5 * subElementIndex, 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -279,7 +280,8 @@ class RefinementMapForTriangle1 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {-subelementIndex, 0, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{2., 0.}}, {{0., 1.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{2., 0.}}, {{1. * subElementIndex, 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -388,7 +390,7 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2.};
+        return {p[0], (p[1] + subElementIndex * (1. - p[0])) / 2.};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixL(
@@ -398,7 +400,8 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, subElementIndex / 2, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 0.5}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{1., -0.5 * subElementIndex}}, {{0., 0.5}}}};
     }
 
     LinearAlgebra::SmallMatrix<2, 2> getRefinementMappingMatrixR(
@@ -408,7 +411,8 @@ class RefinementMapForTriangle2 : public RefinementMapping {
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {0, -subelementIndex, 1}
-        return LinearAlgebra::SmallMatrix<2, 2>{{{{1., 0.}}, {{0., 2.}}}};
+        return LinearAlgebra::SmallMatrix<2, 2>{
+            {{{1., 1. * subElementIndex}}, {{0., 2.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 1; }
@@ -517,7 +521,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             return {0.5 * p[0], 0.5 * p[0] + p[1]};
         }
         return {p[0] + 0.5 * p[1], 0.5 * p[1]};
@@ -529,7 +533,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             // the bonus column might be {0, 0, 1}
             return LinearAlgebra::SmallMatrix<2, 2>{{{{0.5, 0.5}}, {{0., 1.}}}};
         }
@@ -543,7 +547,7 @@ class RefinementMapForTriangle3 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        if (subElementIndex == 0) {
+        if (subElementIndex == 1) {
             // the bonus column might be {0, 0, 1}
             return LinearAlgebra::SmallMatrix<2, 2>{{{{2., -1.}}, {{0., 1.}}}};
         }
@@ -1165,7 +1169,7 @@ class RefinementMapForTriangle6 : public RefinementMapping {
             case 1:
                 return std::make_tuple(0, face);
             case 2:
-                return std::make_tuple(subFaceIndex, subFaceIndex + 2);
+                return std::make_tuple(1 - subFaceIndex, subFaceIndex + 2);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
@@ -1462,9 +1466,9 @@ class RefinementMapForTriangle8 : public RefinementMapping {
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
         const final {
         return std::vector<const RefinementMapping*>{
-            RefinementMapForLine0::instance(),
             RefinementMapForLine1::instance(),
-            RefinementMapForLine1::instance()};
+            RefinementMapForLine1::instance(),
+            RefinementMapForLine0::instance()};
     }
 
     std::vector<std::size_t> getCodim1LocalNodeIndices(
diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
index b3e409a..1f5ab07 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
@@ -312,7 +312,7 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {(p[0] + subElementIndex) / 2., p[1], p[2]};
+        return {(p[0] + subElementIndex * (1. - p[1])) / 2., p[1], p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -323,7 +323,9 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{0.5, 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{0.5, 0., 0.}},
+             {{-0.5 * subElementIndex, 1., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -334,7 +336,9 @@ class RefinementMapForTriangularPrism1 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{2., 0., 0.}}, {{0., 1., 0.}}, {{0., 0., 1.}}}};
+            {{{2., 0., 0.}},
+             {{1. * subElementIndex, 1., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -454,7 +458,7 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex < 2,
             "asked for subElement %, but the % has only % subElements",
             subElementIndex, getName(), getNumberOfSubElements());
-        return {p[0], (p[1] + subElementIndex) / 2., p[2]};
+        return {p[0], (p[1] + subElementIndex * (1. - p[0])) / 2., p[2]};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixL(
@@ -465,7 +469,9 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is probably {subElementIndex / 2, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 0.5, 0.}}, {{0., 0., 1.}}}};
+            {{{1., -0.5 * subElementIndex, 0.}},
+             {{0., 0.5, 0.}},
+             {{0., 0., 1.}}}};
     }
 
     LinearAlgebra::SmallMatrix<3, 3> getRefinementMappingMatrixR(
@@ -476,7 +482,9 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             subElementIndex, getName(), getNumberOfSubElements());
         // the bonus column is most likely {-subelementIndex, 0, 0, 1}
         return LinearAlgebra::SmallMatrix<3, 3>{
-            {{{1., 0., 0.}}, {{0., 2., 0.}}, {{0., 0., 1.}}}};
+            {{{1., 1. * subElementIndex, 0.}},
+             {{0., 2., 0.}},
+             {{0., 0., 1.}}}};
     }
 
     std::size_t getNumberOfNewNodes() const final { return 2; }
@@ -564,7 +572,7 @@ class RefinementMapForTriangularPrism2 : public RefinementMapping {
             case 1:
                 return std::make_tuple(subFaceIndex, face);
             case 2:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 3:
                 return std::make_tuple(0, face);
             case 4:
@@ -717,13 +725,13 @@ class RefinementMapForTriangularPrism3 : public RefinementMapping {
             case 0:
                 return std::make_tuple(subFaceIndex, face);
             case 1:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             case 2:
                 return std::make_tuple(0, face);
             case 3:
                 return std::make_tuple(1, face);
             case 4:
-                return std::make_tuple(subFaceIndex, face);
+                return std::make_tuple(1 - subFaceIndex, face);
             default:
                 logger(ERROR, "something broke, please check the assertions");
         }
-- 
2.43.0


From 845b6b70e5577deded8a9899220198cee250833d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:37:47 +0000
Subject: [PATCH 41/42] fix: let the prism refinement maps name the
 sub-elements that lie on a face

---
 .../RefinementMapsForTriangularPrism.h        | 207 ++++++++----------
 1 file changed, 96 insertions(+), 111 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
index 1f5ab07..c45ff64 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h
@@ -918,33 +918,30 @@ class RefinementMapForTriangularPrism4 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 0}, {2, 0}, {1, 0}, {3, 0}};
+                return subFaces[subFaceIndex];
+            }
+            case 1: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 1}, {1, 1}, {2, 1}, {3, 1}};
+                return subFaces[subFaceIndex];
+            }
             case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{2, 2}, {0, 2}};
+                return subFaces[subFaceIndex];
             }
             case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 3}, {1, 3}};
+                return subFaces[subFaceIndex];
             }
             case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 4}, {2, 4}};
+                return subFaces[subFaceIndex];
             }
             default:
                 logger(ERROR, "something broke, please check the assertions");
@@ -1058,7 +1055,7 @@ class RefinementMapForTriangularPrism5 : public RefinementMapping {
 
     std::vector<Geometry::PointReference<3>> getNewNodeLocations(
         const PointReference<3>&) const final {
-        return {{0., 0., 0.}, {0., 1., 0.}, {1., 0., 0.}};
+        return {{0., 0., 0.}, {1., 0., 0.}, {0., 1., 0.}};
     }
 
     std::vector<const RefinementMapping*> getCodim1RefinementMaps()
@@ -1310,33 +1307,30 @@ class RefinementMapForTriangularPrism6 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 0}, {2, 0}, {1, 0}};
+                return subFaces[subFaceIndex];
+            }
+            case 1: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 5}, {1, 5}, {2, 5}};
+                return subFaces[subFaceIndex];
+            }
             case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{2, 3}, {0, 1}};
+                return subFaces[subFaceIndex];
             }
             case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 3}, {1, 1}};
+                return subFaces[subFaceIndex];
             }
             case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 3}, {2, 1}};
+                return subFaces[subFaceIndex];
             }
             default:
                 logger(ERROR, "something broke, please check the assertions");
@@ -1510,33 +1504,30 @@ class RefinementMapForTriangularPrism7 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 0}, {1, 0}};
+                return subFaces[subFaceIndex];
+            }
+            case 1: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 5}, {1, 1}};
+                return subFaces[subFaceIndex];
+            }
             case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 2}};
+                return subFaces[subFaceIndex];
             }
             case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 1}, {1, 3}};
+                return subFaces[subFaceIndex];
             }
             case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 4}, {0, 4}};
+                return subFaces[subFaceIndex];
             }
             default:
                 logger(ERROR, "something broke, please check the assertions");
@@ -1710,33 +1701,30 @@ class RefinementMapForTriangularPrism8 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 0}, {1, 0}};
+                return subFaces[subFaceIndex];
+            }
+            case 1: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 5}, {1, 1}};
+                return subFaces[subFaceIndex];
+            }
             case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 2}, {0, 2}};
+                return subFaces[subFaceIndex];
             }
             case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 1}};
+                return subFaces[subFaceIndex];
             }
             case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 3}, {1, 4}};
+                return subFaces[subFaceIndex];
             }
             default:
                 logger(ERROR, "something broke, please check the assertions");
@@ -1911,33 +1899,30 @@ class RefinementMapForTriangularPrism9 : public RefinementMapping {
             getCodim1RefinementMaps()[face]->getName(),
             getCodim1RefinementMaps()[face]->getNumberOfSubElements());
         switch (face) {
-            case 0:
-                return std::make_tuple(subFaceIndex, face);
-            case 1:
-                return std::make_tuple(subFaceIndex, face);
+            case 0: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 0}, {1, 0}};
+                return subFaces[subFaceIndex];
+            }
+            case 1: {
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 1}, {1, 5}};
+                return subFaces[subFaceIndex];
+            }
             case 2: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(1, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 4}, {0, 2}};
+                return subFaces[subFaceIndex];
             }
             case 3: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(0, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{0, 3}, {1, 1}};
+                return subFaces[subFaceIndex];
             }
             case 4: {
-                std::size_t elementIndex;
-                std::size_t faceIndex;
-                std::tie(elementIndex, faceIndex) =
-                    getCodim1RefinementMaps()[0]
-                        ->getSubElementAndLocalFaceIndex(2, subFaceIndex);
-                return std::make_tuple(elementIndex, faceIndex + 2);
+                static const std::vector<std::tuple<std::size_t, std::size_t>>
+                    subFaces{{1, 3}};
+                return subFaces[subFaceIndex];
             }
             default:
                 logger(ERROR, "something broke, please check the assertions");
-- 
2.43.0


From bdd1a4e2579054d2028e9a5ffc58702a94a1f052 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:37:47 +0000
Subject: [PATCH 42/42] fix: let the cube refinement maps name the nodes their
 sub-elements have

---
 .../Geometry/Mappings/RefinementMapsForCube.h | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/Geometry/Mappings/RefinementMapsForCube.h b/kernel/Geometry/Mappings/RefinementMapsForCube.h
index 6a537cf..9a3f56d 100644
--- a/kernel/Geometry/Mappings/RefinementMapsForCube.h
+++ b/kernel/Geometry/Mappings/RefinementMapsForCube.h
@@ -1160,13 +1160,13 @@ class RefinementMapForCube5 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 8, 2, 9, 12, 16, 14, 17};
+                return std::vector<std::size_t>{0, 8, 2, 13, 10, 12, 15, 17};
             case 1:
-                return std::vector<std::size_t>{8, 1, 9, 3, 16, 13, 17, 15};
+                return std::vector<std::size_t>{8, 1, 13, 3, 12, 11, 17, 16};
             case 2:
-                return std::vector<std::size_t>{12, 16, 14, 17, 4, 10, 6, 11};
+                return std::vector<std::size_t>{10, 12, 15, 17, 4, 9, 6, 14};
             case 3:
-                return std::vector<std::size_t>{16, 13, 17, 15, 10, 5, 11, 7};
+                return std::vector<std::size_t>{12, 11, 17, 16, 9, 5, 14, 7};
             default:
                 logger(
                     ERROR,
@@ -1219,9 +1219,9 @@ class RefinementMapForCube5 : public RefinementMapping {
             case 3:
                 return {1, 3, 5, 7, 11, 16};
             case 4:
-                return {2, 3, 6, 7, 9, 14};
+                return {2, 3, 6, 7, 13, 15, 16, 14, 17};
             case 5:
-                return {4, 5, 6, 7, 13, 15, 16, 14, 17};
+                return {4, 5, 6, 7, 9, 14};
             default:
                 logger(ERROR, "asked for Face %, but there are only % Faces",
                        localFaceNumber,
@@ -1361,13 +1361,13 @@ class RefinementMapForCube6 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 1, 8, 9, 12, 13, 16, 17};
+                return std::vector<std::size_t>{0, 1, 8, 13, 10, 15, 12, 17};
             case 1:
-                return std::vector<std::size_t>{8, 9, 2, 3, 16, 17, 14, 15};
+                return std::vector<std::size_t>{8, 13, 2, 3, 12, 17, 11, 16};
             case 2:
-                return std::vector<std::size_t>{12, 13, 16, 17, 4, 5, 10, 11};
+                return std::vector<std::size_t>{10, 15, 12, 17, 4, 5, 9, 14};
             case 3:
-                return std::vector<std::size_t>{16, 17, 14, 15, 10, 11, 6, 7};
+                return std::vector<std::size_t>{12, 17, 11, 16, 9, 14, 6, 7};
             default:
                 logger(
                     ERROR,
@@ -1384,7 +1384,7 @@ class RefinementMapForCube6 : public RefinementMapping {
     Geometry::ReferenceGeometry* getSubElementReferenceGeometry(
         std::size_t subElement) const final {
         logger.assert_debug(
-            subElement == 0,
+            subElement < getNumberOfSubElements(),
             "asked for subElement %, but the % has only % subElements",
             subElement, getName(), getNumberOfSubElements());
         return &Geometry::ReferenceCube::Instance();
@@ -1602,21 +1602,21 @@ class RefinementMapForCube7 : public RefinementMapping {
         std::size_t subElementIndex) const final {
         switch (subElementIndex) {
             case 0:
-                return std::vector<std::size_t>{0, 8, 12, 20, 16, 22, 24, 26};
+                return std::vector<std::size_t>{0, 8, 12, 24, 16, 22, 20, 26};
             case 1:
-                return std::vector<std::size_t>{8, 1, 20, 13, 22, 17, 26, 25};
+                return std::vector<std::size_t>{8, 1, 24, 13, 22, 17, 26, 21};
             case 2:
-                return std::vector<std::size_t>{12, 20, 2, 9, 24, 26, 18, 23};
+                return std::vector<std::size_t>{12, 24, 2, 9, 20, 26, 18, 23};
             case 3:
-                return std::vector<std::size_t>{20, 13, 9, 3, 26, 25, 23, 19};
+                return std::vector<std::size_t>{24, 13, 9, 3, 26, 21, 23, 19};
             case 4:
-                return std::vector<std::size_t>{16, 22, 24, 26, 4, 10, 14, 21};
+                return std::vector<std::size_t>{16, 22, 20, 26, 4, 10, 14, 25};
             case 5:
-                return std::vector<std::size_t>{22, 17, 26, 25, 10, 5, 21, 15};
+                return std::vector<std::size_t>{22, 17, 26, 21, 10, 5, 25, 15};
             case 6:
-                return std::vector<std::size_t>{24, 26, 18, 23, 14, 21, 6, 11};
+                return std::vector<std::size_t>{20, 26, 18, 23, 14, 25, 6, 11};
             case 7:
-                return std::vector<std::size_t>{26, 25, 23, 19, 21, 15, 11, 7};
+                return std::vector<std::size_t>{26, 21, 23, 19, 25, 15, 11, 7};
             default:
                 logger(
                     ERROR,
@@ -1667,11 +1667,11 @@ class RefinementMapForCube7 : public RefinementMapping {
             case 1:
                 return {0, 1, 4, 5, 8, 16, 17, 10, 22};
             case 2:
-                return {0, 2, 4, 6, 16, 12, 14, 18, 20};
+                return {0, 2, 4, 6, 12, 16, 18, 14, 20};
             case 3:
-                return {1, 3, 5, 7, 17, 13, 15, 19, 21};
+                return {1, 3, 5, 7, 13, 17, 19, 15, 21};
             case 4:
-                return {2, 3, 6, 7, 18, 9, 11, 19, 23};
+                return {2, 3, 6, 7, 9, 18, 19, 11, 23};
             case 5:
                 return {4, 5, 6, 7, 10, 14, 15, 11, 25};
             default:
-- 
2.43.0

