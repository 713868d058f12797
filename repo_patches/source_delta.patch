From 9e3a97de6ec879507fc14590fc2609ea2c4fe3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 01/42] fix: terminate the defaulted VTKMeshReader destructor
 so that the mesh readers compile

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 9ef397d8ba531af4e420f27b057e3be7ea9def6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 02/42] fix: make ElementIndex default constructible so that
 original-order connections compile

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..5941530 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,7 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex() : index() {}
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
-- 
2.43.0


From 95bb1bc623cded24d9da776e249c125ef10cdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 03/42] fix: make the index conversion of ElementIndex const so
 that const element access compiles

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index 5941530..beadc2e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -30,7 +30,7 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    operator IndexType() const {
         return index;
     }
 
-- 
2.43.0


From 1e7ca9ae56ff3756060af98a6b0f39b437cecebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 04/42] fix: removeSubelement compiles and erases the requested
 sub-element

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..eeb163e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -98,8 +98,8 @@ public:
             for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
             numberOfElements--;
+            this->at(numberOfElements) = INVALID_INDEX(IndexType);
         } else {
             throw(std::runtime_error(
                         "removing index " + std::to_string(atIndex) +
@@ -135,7 +135,7 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+        this->erase(this->begin() + atIndex);
     }
 };
 
-- 
2.43.0


From 30d4a9496d682c5461102724f85e2f6813110014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 05/42] fix: the random coloring of a mesh without elements of
 the colored dimension returns an empty coloring

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..d618690 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,9 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // nothing to recolor
+        if (result.template getDataByPos<0>().empty()) return result;
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From 9d3b9356c26fb13425a98d5b425c9455a353aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 06/42] fix: initializeCenters with given centers compiles

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6b90bfc 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -54,10 +54,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From 6bbcabc0d9b3049a79516244dfe4c488ce61170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 07/42] fix: clearing a mesh also removes its boundary cells

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..e475ca9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From 8eb3cbc7fad76fa5f9310e93e1c21011b63097bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 08/42] fix: dividing a vertex divides each of its coordinates
 also for integer operands

---
 src/GTMesh/NumericStaticArray/Vertex.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..cad29bb 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,9 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    Vertex<Dim, Real> res = *this;
+    res /= x;
+    return res;
 }
 
 
@@ -172,7 +174,10 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
-    this->operator*=(Real(1.0)/x);
+    const RealOP divisor = x;
+    for (unsigned int i = 0; i < Dim; i++) {
+        (*this)[i] /= divisor;
+    }
     return *this;
 }
 
-- 
2.43.0


From f862785b175a2b29eb1c2336a6f13d7e4736663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 09/42] fix: scaling a vertex by one of its own coordinates
 scales all coordinates by the same factor

---
 src/GTMesh/NumericStaticArray/Vertex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index cad29bb..c434a4e 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -166,7 +166,8 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator-=(const Vertex<Dim, Real>& v){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
-    inlineMultiplication<Dim, Real>::computation(this->data(), x);
+    const RealOP factor = x;
+    inlineMultiplication<Dim, Real>::computation(this->data(), factor);
     return *this;
 }
 
-- 
2.43.0


From b45f8daa21a84a61058fbc9f2222d9d8775cf0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 10/42] fix: the scalar product is computed in the type of the
 coordinates

---
 src/GTMesh/NumericStaticArray/InlineArrayOperations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 0dde6c7..d433dc0 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -13,7 +13,7 @@ struct inlineScalarProduct {
 template <typename Real>
 struct inlineScalarProduct<1, Real>
 {
-    static inline double computation(const Real *x, const Real *y){
+    static inline Real computation(const Real *x, const Real *y){
         return x[0] * y[0];
     }
 };
-- 
2.43.0


From 7165f8164ffe2d2ddc11ac9e57a4a45a057cbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 11/42] fix: computeMeasures passes the requested method on, so
 that the tessellated cell measures are reachable

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..058627c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const auto& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From dc7c01c1dd3b5cf810c613800fe2bc437b78226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 12/42] fix: allocating a data container according to another
 data container compiles

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..d783e7e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From a3dc9bb276efacf96ed7e469543ef1061bb7e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 13/42] fix: access by position to a data container with a
 tuple of types returns the type at that position

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index d783e7e..13b3052 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From fb9c442046f3205e5a53fca2b002adc7abe1b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 14/42] fix: allocateData with an initial value initializes
 also the entries which already existed

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 13b3052..44859a8 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -111,7 +111,7 @@ private:
         const MeshElements<Dimension, IndexType, Real, Reserve...> &mesh,
         const DataType &initialValue)
     {
-        getDataByPos<pos>().resize(mesh.template getElements<dimensionAt<pos>()>().size(),
+        getDataByPos<pos>().assign(mesh.template getElements<dimensionAt<pos>()>().size(),
                                    initialValue);
         allocateMemory<pos + 1>(mesh, initialValue);
     }
@@ -132,7 +132,7 @@ private:
         const DataType &initialValue)
     {
         getDataByPos<pos>()
-            .resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size(),
+            .assign(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size(),
                     initialValue);
         allocateMemory<pos + 1>(meshDataContainer, initialValue);
     }
@@ -526,7 +526,7 @@ private:
         const _DataType &initialValue,
         const _DataTypes &... values)
     {
-        getDataByPos<pos>().resize(mesh.template getElements<dimensionAt<pos>()>().size(),
+        getDataByPos<pos>().assign(mesh.template getElements<dimensionAt<pos>()>().size(),
                                    initialValue);
         allocateMemory<pos + 1>(mesh, values...);
     }
@@ -550,7 +550,7 @@ private:
         const _ValDataTypes &... values)
     {
         getDataByPos<pos>()
-            .resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size(),
+            .assign(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size(),
                     initialValue);
         allocateMemory<pos + 1>(meshDataContainer, values...);
     }
-- 
2.43.0


From 0f1852246c47bc7009b30db992b972d0dab2e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 15/42] fix: removeSubelement accepts any position, not only
 those below 256

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index eeb163e..8b8a0df 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -93,9 +93,9 @@ public:
         addSubelement(index);
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(unsigned int atIndex){
         if (atIndex < numberOfElements){
-            for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
+            for(unsigned int i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
             numberOfElements--;
@@ -134,7 +134,7 @@ public:
         this->push_back(IndexType{index});
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(unsigned int atIndex){
         this->erase(this->begin() + atIndex);
     }
 };
-- 
2.43.0


From 486361d152c9feac73927a545f92469b69ddeef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 16/42] fix: removing a missing sub-element from a dynamic list
 raises an error as for bounded lists

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8b8a0df..995544a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -135,7 +135,15 @@ public:
     }
 
     void removeSubelement(unsigned int atIndex){
-        this->erase(this->begin() + atIndex);
+        if (atIndex < this->size()){
+            this->erase(this->begin() + atIndex);
+        } else {
+            throw(std::runtime_error(
+                        "removing index " + std::to_string(atIndex) +
+                        " is greather than number of subelements " + std::to_string(this->size())+ "."
+                        )
+                 );
+        }
     }
 };
 
-- 
2.43.0


From 5feda1d1918aa4decf506ae01973b60b9d253326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 17/42] fix: vertex elements accept lists of their own
 coordinate type

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 995544a..32c1e2b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -194,8 +194,8 @@ public:
         :MeshElementBase<IndexType>(index), Vertex<MeshDim, Real>(v) {
 
     }
-    MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+    MeshElement<MeshDim, 0, IndexType, Real, Reserve>& operator =(std::initializer_list<Real> l){
+        this->Vertex<MeshDim, Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 07c67b0254bc16e67a00da35869676dace161fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 18/42] fix: orthogonalising an empty dynamic list leaves it
 empty

---
 src/GTMesh/NumericStaticArray/GramSchmidt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/NumericStaticArray/GramSchmidt.h b/src/GTMesh/NumericStaticArray/GramSchmidt.h
index e340cdc..af30f4f 100644
--- a/src/GTMesh/NumericStaticArray/GramSchmidt.h
+++ b/src/GTMesh/NumericStaticArray/GramSchmidt.h
@@ -51,6 +51,7 @@ void gramSchmidt(std::array<Vector<Dimension, Real>, NumVec>& vectors){
  */
 template <unsigned int Dimension,typename IndexType, typename Real>
 void gramSchmidt(std::vector<Vector<Dimension, Real>>& vectors){
+    if (vectors.empty()) return;
     /*
      * Vector of inverse suquare of norm
      */
@@ -135,6 +136,7 @@ void gramSchmidt(std::vector<Vector<Dimension, Real>>& vectors, std::vector<Real
      */
     std::vector<Real> coef(vectors.size());
     norms.resize(vectors.size());
+    if (vectors.empty()) return;
     norms.at(0) = vectors.at(0).normEuclid();
     vectors.at(0) /= norms.at(0);
 
-- 
2.43.0


From 28558445b3348329ca3b92a55dd1e2c317188931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 19/42] fix: center difference of a face with a right cell only
 points to that cell, as with boundary cells

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From 6874f18a73a9b1c0f594c085dfa61216744f6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 20/42] fix: normals of two-dimensional meshes point away from
 the left cell

---
 .../MeshFunctions/ComputeNormals.h                | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..60c3ebd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -67,6 +67,21 @@ struct _ComputeNormals<2, Method>{
             normals[face][0] = dif[1];
             normals[face][1] = -dif[0];
             normals[face] /= dif.normEuclid();
+
+            // the normal points away from the left cell
+            double vectorSign = 1.0;
+            IndexType cellIndex = face.getCellLeftIndex();
+
+            if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
+                vectorSign = -1.0;
+                cellIndex = face.getCellRightIndex();
+            }
+
+            const Vertex<2,Real>& cellCenter = mesh.getCells().at(cellIndex).getCenter();
+
+            if (vectorSign * (normals[face] * (cellCenter - a)) > 0) {
+                normals[face] *= -1.0;
+            }
         }
     }
 };
-- 
2.43.0


From 5f3050d461a8eb6bb95078660cdcae131ac06401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 21/42] fix: reading position of the serializer survives
 writing, copying and loading of files

---
 .../BinarySerializer/BinarySerializer.h       | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..77597cf 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -65,13 +65,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator dataIterator = mData.cbegin() + mDataPosition;
+        readNext(dataIterator, data);
+        mDataPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -81,11 +84,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mDataPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mDataPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -101,7 +104,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mDataPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -126,6 +129,7 @@ public:
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
             mData.resize(file_size);
+            resetIterator();
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
         }
@@ -133,7 +137,9 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    // the position of the next byte to be read (an iterator would not survive
+    // reallocation of the data nor copying of the serializer)
+    ByteContainer::size_type mDataPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From 9bf0487b276c2693c73a860164ed1e87a2306a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 22/42] fix: serialization of empty compact containers does not
 touch their data

---
 .../BinarySerializer/Serializers/SerializeCompactContainer.h  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index c82d814..543eb9e 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -100,6 +100,8 @@ struct SerializeCompactContainer {
         dataContainer.resize(dataContainer.size() + (size * sizeof (Interface::Compact<T>::value_type)));
         */
         BinarySerializer::addNext(dataContainer, size);
+        // an empty container has no data to point to
+        if (size == 0) return;
         dataContainer.insert(dataContainer.end(),
                              reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data)),
                              reinterpret_cast<const BinarySerializer::Byte*>(Interface::CompactContainer<T>::data(data) + size));
@@ -119,6 +121,8 @@ struct SerializeCompactContainer {
             Interface::CompactContainer<T>::resize(data, size);
         }
 
+        // an empty container has no data to point to
+        if (size == 0) return;
         std::memcpy(Interface::CompactContainer<T>::data(data),
                dataIterator.base(),
                size * sizeof(typename Interface::CompactContainer<T>::value_type));
-- 
2.43.0


From f378a6871bebad21fc14a21a62811c0ad1fd3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 23/42] fix: only bool is serialized as bool, not everything
 convertible to it

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index b289cf8..cba22af 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -29,10 +29,6 @@ struct SerializeSimple {
         }
     }
 
-    static void serialize(std::vector<unsigned char>& dataContainer, const bool data){
-        dataContainer.push_back(data ? 1 : 0);
-    }
-
     template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
         switch (*dataIterator) {
-- 
2.43.0


From a1ae7c89d99ccd9c8e7ea48d351aa6cc4575386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 24/42] fix: resizable lists can be read from the serializer

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..38e16cf 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -15,7 +15,7 @@ struct SerializeIterable {
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    static Impl::void_t<decltype(std::declval<T&>().resize(0))>
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From 991e32df6fbe82f7aa66d17a52765a7ec158a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 25/42] fix: reading maps and sets replaces their previous
 contents

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 38e16cf..a1a0806 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From 72f9e283951ab5727672c0660ea624f193159e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 26/42] fix: names of mesh data arrays of dimensions with zero
 digits

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..af885e3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,14 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                // only the leading zeros are omitted
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From 994651cb22a7d95d4e93df2870be487bb3e65625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 27/42] fix: abs of members of described classes truncated
 floating-point values or recursed without end

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..057bfb4 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -725,6 +725,7 @@ struct Abs
 {
 
     static auto evaluate( const T1& a ) -> T1 {
+        using std::abs;
         return abs(a);
     }
 
@@ -760,7 +761,7 @@ typename std::enable_if<
 >::type
 abs(const T& arg) noexcept {
 
-    return  abs(arg);
+    return  std::abs(arg);
 }
 
 template <typename T>
-- 
2.43.0


From e0473a721b8b459f3c4e9ec818c9699e628740c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 28/42] fix: power of a number to a described class swapped the
 base and the exponent

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 057bfb4..f66572d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -384,10 +384,26 @@ pow(const TraitT& op1, const Real& op2) noexcept {
 }
 
 
+///
+/// Power of a real number to each traited class member
+///
+template< typename T1, typename T2 >
+struct PowBase
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( pow(b,a) )
+   {
+      return pow(b,a);
+   }
+};
+
+
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, const TraitT& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitT res;
+    TraitsBinaryExpressionProcesor<PowBase>::evaluate(res, op2, op1);
+    return res;
 }
 
 
@@ -395,7 +411,10 @@ pow(const Real& op1, const TraitT& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, TraitT&& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitsBinaryExpressionProcesor<PowBase>::evaluate(op2, op2, op1);
+
+    return op2;
 }
 
 
-- 
2.43.0


From a728671c415a38db613e59701106802714aa4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 29/42] fix: division of described classes by a number
 multiplied by an inexact reciprocal

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index f66572d..97da3f3 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -328,11 +328,23 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
 /// Division of traited class with a real number
 ///
 
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
+
+
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, op2);
+    return res;
 }
 
 
@@ -340,7 +352,9 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, op2);
+
+    return op1;
 }
 
 
-- 
2.43.0


From 86b658dfefc1bc972897ffb856fed01bdd2b892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 30/42] fix: missing return in the difference with a temporary
 described class

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 97da3f3..9e8e4d1 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -207,6 +207,7 @@ operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
 
+    return op2;
 }
 
 
-- 
2.43.0


From 8f33f0eecc95803b645d966459eab59e021e9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 31/42] fix: hash only the stored values of mesh elements in
 the mesh signature

The signature hashed the raw bytes of the element arrays, that is also padding,
the unused part of reserved storage and the never initialised boundary element
index of a cell. Equal meshes could obtain different signatures.
---
 .../MeshElements/MeshElement.h                |   2 +-
 .../MeshElements/MeshElements.h               | 160 +++++++-----------
 2 files changed, 63 insertions(+), 99 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 32c1e2b..3651573 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -258,7 +258,7 @@ class MeshElement<MeshDim, MeshDim, IndexType, Real, Reserve>
 public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
-        :MeshElementBase<IndexType>(index) {
+        :MeshElementBase<IndexType>(index), boundaryElementIndex(INVALID_INDEX(IndexType)) {
 
     }
 
diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index e475ca9..603358a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
@@ -198,117 +198,79 @@ public:
      */
 private:
 
-    template<unsigned int Dim = Dimension, typename Void = void>
-    struct HashOfMeshElements{
+    /**
+     * @brief Adds a value to the hash. Only the values stored in the elements are hashed.
+     * The bytes of the elements contain also padding and unused (reserved) memory.
+     */
+    template<typename T>
+    static void addToHash(size_t& hash, const T& value) {
+        hash ^= std::hash<T>()(value) + 0x9e3779b9 + (hash << 6) + (hash >> 2);
+    }
 
+    static void addConnectionToHash(size_t& hash, const CellBoundaryConnection<IndexType>* connection) {
+        addToHash(hash, connection->getCellLeftIndex());
+        addToHash(hash, connection->getCellRightIndex());
+        addToHash(hash, connection->getNextBElemWRTCL());
+        addToHash(hash, connection->getNextBElemWRTCR());
+    }
+    // elements which do not separate cells
+    static void addConnectionToHash(size_t&, ...) {}
 
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
-        {
-            std::hash<IndexType> indexHasher;
-
-            // Hash of generic element eg. face
-            size_t elemHash = mesh.getElements<Dim>().size();
-            for(auto& element : mesh.getElements<Dim>()) {
-                for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
-                }
-            }
-            return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
+    static void addCenterToHash(size_t& hash, const ComputationallySignificantElement<Dimension, Real>* element) {
+        for (unsigned int i = 0; i < Dimension; i++) {
+            addToHash(hash, element->getCenter()[i]);
         }
+        addToHash(hash, element->getFlag());
+    }
+    // elements without center and flag
+    static void addCenterToHash(size_t&, ...) {}
 
-
-    };
-
-    template<unsigned int Dim>
-    struct HashOfMeshElements <Dim, typename std::enable_if<(MeshElements<Dimension, IndexType, Real, Reserve...>::template reserve<Dim>() > 0), size_t>::type>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
-        {
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(vectorView);
-#endif
-            return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
+    static void addContentToHash(size_t& hash, const Vertex& vertex) {
+        for (unsigned int i = 0; i < Dimension; i++) {
+            addToHash(hash, vertex[i]);
         }
-    };
-
-
-    /**
-     * @brief The hashOfMeshElements<Dimension, Dummy> struct hashes the cell information.
-     */
-    template<typename Dummy>
-    struct HashOfMeshElements<Dimension, Dummy>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
-
-            // Hash of cells
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
+    }
 
-            size_t cHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
+    static void addContentToHash(size_t& hash, const Edge& edge) {
+        addToHash(hash, edge.getVertexAIndex());
+        addToHash(hash, edge.getVertexBIndex());
+    }
 
-            size_t cHash = hasher(vectorView);
-#endif
+    static void addContentToHash(size_t& hash, const Cell& cell) {
+        addToHash(hash, cell.getBoundaryElementIndex());
+    }
 
-            return cHash ^ HashOfMeshElements<Dimension -1>::hash(mesh);
+    template<unsigned int ElementDim, unsigned int ElementReserve>
+    static void addContentToHash(size_t& hash, const MeshElement<Dimension, ElementDim, IndexType, Real, ElementReserve>& element) {
+        addToHash(hash, size_t(element.getSubelements().size()));
+        for (const IndexType& subElement : element.getSubelements()) {
+            addToHash(hash, subElement);
         }
-    };
+    }
 
-    template<typename Dummy>
-    struct HashOfMeshElements<1, Dummy>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
-
-            // Hash of edges
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(vectorView);
-#endif
-            return eHash ^ HashOfMeshElements<0>::hash(mesh);
+    template<unsigned int Dim = Dimension, typename Void = void>
+    struct HashOfMeshElements{
+        static void hash(size_t& meshHash, const MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
+        {
+            addToHash(meshHash, size_t(mesh.template getElements<Dim>().size()));
+            for (const auto& element : mesh.template getElements<Dim>()) {
+                addToHash(meshHash, element.getIndex());
+                addContentToHash(meshHash, element);
+                addConnectionToHash(meshHash, &element);
+                addCenterToHash(meshHash, &element);
+            }
+            HashOfMeshElements<Dim - 1>::hash(meshHash, mesh);
         }
     };
 
-
     template<typename Dummy>
     struct HashOfMeshElements<0, Dummy>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
-
-            // Hash of vertices
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-
-            // Use string as a byte container representing the array
-            std::string_view tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#endif
-            return vHash;
+        static void hash(size_t& meshHash, const MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
+            addToHash(meshHash, size_t(mesh.getVertices().size()));
+            for (const auto& vertex : mesh.getVertices()) {
+                addToHash(meshHash, vertex.getIndex());
+                addContentToHash(meshHash, vertex);
+            }
         }
     };
 
@@ -316,7 +278,9 @@ public:
 
     size_t updateSignature() {
 
-        meshSignature = HashOfMeshElements<Dimension>::hash(*this);
+        size_t meshHash = 0;
+        HashOfMeshElements<Dimension>::hash(meshHash, *this);
+        meshSignature = meshHash;
 
         return meshSignature;
 
-- 
2.43.0


From 3a52a2a041b9564151a093ea65d6a720821e5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 32/42] fix: export to standard output lost values

An unsigned number was followed by the letter d, a text literal was exported as
true, DBGVAR_STDIO exchanged the names of the file and of the function and
writeMessageC with more messages did not compile (exchanged arguments).
---
 src/GTMesh/Debug/ConsoleLogger.h            | 4 ++--
 src/GTMesh/Debug/Debug.h                    | 2 +-
 src/GTMesh/Debug/Printers/PrintExportable.h | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..c9dc547 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,7 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
 
@@ -56,6 +56,11 @@ struct PrintExportable {
         printf("%llu", d);
     }
 
+    static void print(const char* str, ...)
+    {
+        printf("%s", str);
+    }
+
     static void print(const bool& b, ...)
     {
         printf("%s", (b == true ? "true" : "false"));
-- 
2.43.0


From 310246f9346eb89ba253da3325c585932248013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:36 +0000
Subject: [PATCH 33/42] fix: exporting a tuple to a stream printed the bytes of
 the stream

The overload for an export to the standard output with traits was selected,
the stream was taken for the variable and the tuple for the traits.
---
 src/GTMesh/Debug/VariableExport.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/VariableExport.h b/src/GTMesh/Debug/VariableExport.h
index ddac070..19ffddd 100644
--- a/src/GTMesh/Debug/VariableExport.h
+++ b/src/GTMesh/Debug/VariableExport.h
@@ -27,7 +27,10 @@ struct VariableExport {
     static void exportVariable(const T& var);
 
 
-    template <typename T, typename ... TraitsTypes>
+    // The streams are excluded, otherwise this overload would be selected
+    // to export a tuple into a stream.
+    template <typename T, typename ... TraitsTypes,
+              std::enable_if_t<!std::is_base_of<std::ios_base, T>::value, bool> = true>
     static void exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
 
 };
@@ -135,7 +138,7 @@ void VariableExport::exportVariable(const T &var)
 }
 
 
-template<typename T, typename ... TraitsTypes>
+template<typename T, typename ... TraitsTypes, std::enable_if_t<!std::is_base_of<std::ios_base, T>::value, bool>>
 void VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
 {
     SelectPrinterTraitsTuple< T, std::tuple<TraitsTypes...>,
-- 
2.43.0


From e763a3d2fcb6fac903bab30aa6810254534f87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:36 +0000
Subject: [PATCH 34/42] fix: JSON and HTML log stay well formed

Destroying the log twice (or writing after it) used a released stream, creating
a new log left the previous document incomplete and a backslash at the beginning
of the file name was not doubled.
---
 src/GTMesh/Debug/HTMLLogger.h |  7 +++----
 src/GTMesh/Debug/JSONLogger.h | 10 +++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..e44e0b1 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,8 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        // complete the previous document
+        destroy();
         logFile = new std::ofstream(fileName);
 
 
@@ -58,6 +56,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..de6aa46 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,8 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        // complete the previous document
+        destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         (*logFile) << "{\n\"logs\":[\n";
@@ -57,6 +55,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
@@ -152,8 +151,9 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
+        while((pos = res.find("\\", pos)) != res.npos){
             res.replace(pos, 1, "\\\\");
+            pos += 2;
         }
         return res;
     }
-- 
2.43.0


From bc6b437054a367b4ca1bff3fcb06380b34918bea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 35/42] fix: FPMA writer holds vertex and face indices in the
 right index types

indexFace and the assignment of the cell connections did not compile, so no
mesh could be written in FPMA format.
---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..4d0d174 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From 367b668d7fdbf48ed62dbac0d526003244b20c51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 36/42] fix: FPMA reader clears the mesh before loading

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..0a3d861 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From f24e887716a587c41e3140023c39e394e3d4c22a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 37/42] fix: mesh writers start without the hash of an indexed
 mesh

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 4d0d174..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..676dae1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From 0af7f879a0dc6c142a3a25d704dc8a51d3d5de27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 38/42] fix: VTK writer keeps the centers of close cells and
 faces apart

The appended centers were identified by their coordinates printed with six
decimals, so the parts of small cells shared one center.
---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 676dae1..1fba2ed 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -421,7 +421,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the appended centers of faces
+        std::map<IndexType, IndexType> appendedFaceCenters;
 
 
 
@@ -512,18 +513,8 @@ DBGMSG("indexing mesh");
                 //throw std::runtime_error("it is not possible yet to write generic object into VTK");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
-                IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                IndexType cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -534,14 +525,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
-                        if (it == appendedVertPos.end()) {
+                        auto it = appendedFaceCenters.find(tmpFace);
+                        if (it == appendedFaceCenters.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            appendedFaceCenters[tmpFace] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From b7531fc891dd5c414f1e2029dc7d3154aeef6f4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 39/42] fix: VTK reader refuses unsupported cell types

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..9caef0f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -141,7 +141,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -420,7 +420,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
-- 
2.43.0


From 1ab52b78756ad4c719d8ed9295cc0c7dddcea535 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 40/42] fix: VTK data of single and of several containers
 compile

writeToStream and readFromStream of a DataContainer called functions which do
not exist and the reader of several containers called the writer.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 4 ++--
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..3ef514a 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -150,7 +150,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
@@ -181,7 +181,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..19e9404 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 396e793fd9c9c558e87527785f13e4f6d587e5c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 41/42] fix: VTK data reader takes the member types from the
 traits in use

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 3ef514a..4d253a0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -48,7 +48,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
-- 
2.43.0


From 1f679c392eb596b35486a57030bc8d58519d9ced Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 42/42] fix: VTK data reader recognizes the attribute keywords
 only where a line begins

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 4d253a0..ceed748 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -123,9 +123,9 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
-                                                                                              : 0 );
+            int flag = (line.find("SCALARS") == 0 ? 1
+                                                  : line.find("VECTORS") == 0 ? 2
+                                                                              : 0 );
             if (flag != 0){
                 std::string dataName;
                 std::stringstream sstream(line);
-- 
2.43.0

